#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one dict per property).  Usage: tools/props.py > properties.jsonl
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
I='core/src/index/'
p('C01','String ids are a stable one-to-one naming of strings',
  'Asking the string table twice for the id of the same text always gives the same id, different texts always get different ids (also when their hashes collide), and looking an id up returns exactly the text it was given for. This holds after any number of other strings and after closing and reopening the table on the same directory, for texts without NUL characters.',
  ['histories','inputs'],'every bounded history of getId/getString/reopen over texts that include hash-colliding pairs, prefixes, empty and long texts, and enough texts to evict the in-memory cache',
  'Tests insert a few non-colliding strings; collisions, cache eviction followed by lookup, and reopen after each history are not reached.',
  [I+'StringTable.cpp',I+'StringTable.hpp','core/src/utils/LruCache.hpp','core/lib/hashing/MurmurHash3.cpp'],
  [('hash to ids multimap verified against the data file',I+'StringTable.cpp getId'),('id -> offset vector and text cache',I+'StringTable.cpp getString')],
  [('string.idx/string.dat','(hash, offset) entries and NUL-terminated texts',I+'StringTable.cpp')],['StringTable::getId','StringTable::getString'])
p('C02','A string table survives the death of its process at any write',
  'If the process dies between any two of its file writes, or within a write longer than one table entry, reopening the string table recovers a prefix of the recorded strings, in order, each with the id and text it had; the prefix contains at least everything recorded before the table was last closed. Ids handed out after that recovery never clash with recovered ones and behave like ids of a fresh table.',
  ['crash_points','histories'],'every write the process issues (including torn long writes) is a crash point, for bounded histories of inserts and reopenings',
  'The tests never kill the process; they only see a table that was closed in an orderly way.',
  [I+'StringTable.cpp'],[('append-only index and data files',I+'StringTable.cpp')],None,['StringTable'])
p('C03','An element read back from a store equals the element that was stored',
  'A node, way, area or relation (also nested relations) which lies inside the stored tile is returned by every later query of that tile with the same kind, id, tags, coordinates in the same order and members in the same order. It does not matter whether the store keeps data in memory or on disk, how many elements, tags, points or members there are, or whether the data directory was closed and reopened in between.',
  ['inputs','histories'],'every element shape from a bounded grammar (kind, tag count, coordinate count incl. sizes around encoding boundaries, relation nesting) alone and in sequences, on every level of detail used',
  'Tests store a handful of fixed elements; sizes, nesting and order combinations are unbounded.',
  [I+'ElementStream.cpp',I+'PersistentElementStore.cpp',I+'InMemoryElementStore.cpp','core/src/entities/'],
  [('binary element encoding',I+'ElementStream.cpp'),('per tile data, index and bitmap files',I+'PersistentElementStore.cpp')],None,['GeoStore::search','ElementStore::search'])
p('C04','In-memory and on-disk stores answer every history of operations alike',
  'After any sequence of adding data, querying tiles, text searching, erasing a tile and reopening, a store returns for each tile exactly the elements added to it and not erased since, each exactly once per addition, and reports data for exactly the tiles that were given some. The in-memory and the on-disk store give the same answers to the same sequence.',
  ['histories'],'all operation sequences up to a bounded depth over a few elements, two neighbouring tiles, two levels of detail and more tiles than the store keeps open, compared with a plain reference model after each step',
  'Tests exercise add followed by one search; interleavings of search, text search, erase, reopen and open-file eviction change shared file positions and cannot be sampled.',
  [I+'PersistentElementStore.cpp',I+'InMemoryElementStore.cpp',I+'GeoStore.cpp','core/src/utils/LruCache.hpp'],
  [('per tile open file streams in an LRU cache',I+'PersistentElementStore.cpp'),('tile keyed vectors',I+'InMemoryElementStore.cpp')],
  [('data_','open streams per tile',I+'PersistentElementStore.cpp')],['GeoStore::add/search/erase/hasData'])
p('C05','Every element reaches exactly the tiles its geometry touches, clipped to them',
  'When data is added for a range of levels, a tile or a bounding box, an element whose style asks for clipping becomes visible in every tile of the requested region on those levels which its geometry crosses and in no other tile; there it has the part of the original geometry inside that tile (lines keep their course, areas keep their covered surface), and the parts of all tiles add up to the original. An element styled without clipping is stored unaltered in every tile its bounding box meets, and an element without style or with skip nowhere. With a bounding box, elements outside of it are not added.',
  ['inputs'],'all nodes, lines, polygons and relations on a bounded lattice of coordinates around tile corners, over several levels of detail and every way of naming the region',
  'Tests clip a few hand-made shapes; whether every position relative to tile borders is handled needs enumeration against an independent geometric oracle.',
  [I+'ElementStore.cpp',I+'ElementGeometryClipper.cpp',I+'ElementGeometryVisitor.hpp','core/src/utils/GeoUtils.hpp','core/lib/clipper/'],
  [('tile range visiting',I+'ElementStore.cpp'),('polygon and line clipping',I+'ElementGeometryClipper.cpp')],None,['GeoStore::add + search'])
p('C06','Text search returns exactly the elements matching terms, region and levels',
  'A text search returns an element exactly once per stored copy if and only if it has none of the excluded terms, all of the required terms and at least one of the optional terms (when any are given), the copy lies in a stored tile of a requested level that touches the requested bounding box, and the bounding box of the copy touches it too. A query with neither required nor optional terms returns nothing. This holds for stores in memory and on disk and for any history of additions, erasures and reopenings before the search.',
  ['inputs','histories'],'all term assignments over a small vocabulary to not/and/or lists, all tag assignments to a few elements, boxes and level ranges around the tiles holding data',
  'Tests check single queries; boolean structure times stored tag sets times box position is combinatorial.',
  [I+'BitmapIndex.cpp',I+'BitmapStream.cpp',I+'PersistentElementStore.cpp',I+'InMemoryElementStore.cpp'],
  [('term bitmaps combined with and/or/not',I+'BitmapIndex.cpp')],None,['GeoStore::search(notTerms, andTerms, orTerms, bbox, range)'])
p('C07','The same map data gives the same elements whatever format it comes in',
  'Data written as OSM XML or OSM PBF produces the same set of nodes, ways, areas and relations with the same ids, tags and geometry; GeoJSON vector tiles and shape files (point, line and polygon records) produce one element per feature or record with its attributes and geometry. Nothing is dropped, duplicated or altered, wherever on earth the data lies, however long, and however the file groups, compresses, escapes or lays out its contents.',
  ['inputs'],'all small data sets of a bounded grammar (nodes, ways, closed ways, tags, relations, all hemispheres), each serialised in every format and in several layouts (blocking, granularity, compression, dense nodes, whitespace, escapes, attribute order)',
  'Each parser is tested with one fixed file; agreement across formats and layouts is never checked.',
  ['core/src/formats/osm/','core/src/formats/shape/','core/src/formats/FormatTypes.hpp'],
  [('format specific parsers feeding one visitor','core/src/formats/osm/OsmDataVisitor.cpp'),('shape parser','core/src/formats/shape/ShapeParser.hpp')],None,['GeoStore::add(file)'])
p('C08','Relations resolve to all their members and multipolygons to correct areas',
  'An OSM relation is stored with each of its resolvable members once and in order, whatever the order in which relations reference each other; a multipolygon becomes areas whose outer and inner rings are exactly the rings assembled from its member ways, each inner ring in the outer ring that contains it. Members that are not in the file, or that contain the relation themselves, lose only themselves; a multipolygon whose ways are missing or do not close is stored without areas. No combination of members damages other data or hangs or crashes the import.',
  ['inputs'],'all relations up to a few members over a small pool of ways (open chains in every order and direction, closed rings, nested rings, missing members, nested, self and mutually referencing relations)',
  'Tests use one or two relations from real files; ring assembly depends on order, direction and nesting.',
  ['core/src/formats/osm/MultipolygonProcessor.cpp','core/src/formats/osm/RelationProcessor.hpp','core/src/formats/osm/OsmDataVisitor.cpp','core/src/formats/osm/BuildingProcessor.hpp'],
  [('ring assembly and nesting','core/src/formats/osm/MultipolygonProcessor.cpp'),('recursive relation resolution','core/src/formats/osm/OsmDataVisitor.cpp')],None,['GeoStore::add(file) then search'])
p('C09','Broken input or requests are reported as errors and change nothing',
  'Importing a damaged, truncated or missing data file, or a request with an unknown store, a broken stylesheet or a missing file, ends with an error reported to the caller and never with a crash, a hang or silent success when the data could not be read. After the error nothing of the broken file is stored, all previously stored data is still returned unchanged and the library keeps working.',
  ['inputs','fault_sequences'],'every truncation point and single-token damage of small files of each format, and every invalid argument combination of the public API',
  'Tests check one or two invalid files; the error space is the set of all damage positions.',
  ['core/shared/ExportLib.cpp','core/shared/Application.hpp','core/src/formats/',I+'GeoStore.cpp','core/src/mapcss/MapCssParser.cpp'],
  [('exceptions translated to the error callback','core/shared/ExportLib.cpp safeExecute')],None,['error callback of the exported functions'])
p('C10','A cancelled operation stops, reports nothing wrong and leaves no partial data',
  'When the caller cancels an import of a tile, the tile contains no data from that import afterwards and other tiles keep theirs; when the caller cancels a tile or text query, no further elements or meshes are delivered. Repeating the operation without cancelling gives the complete result, as if the cancelled attempt had not happened.',
  ['schedules','histories'],'cancellation at every point at which the library can observe it (after each element delivered, each point of the import), followed by a repeat',
  'Tests cancel before the start only; the points in between are reachable only by enumerating them.',
  [I+'GeoStore.cpp','core/src/CancellationToken.hpp','core/src/builders/QuadKeyBuilder.cpp','core/shared/Storage.hpp'],
  [('token checks in loops',I+'GeoStore.cpp'),('erase on cancellation',I+'GeoStore.cpp')],None,['GeoStore','QuadKeyBuilder::build','exported API'])
p('C11','Using the mesh cache never changes what a tile request delivers',
  'With the mesh cache enabled, the first and every later request of a tile deliver the same meshes and elements as without the cache, for each stylesheet, level and tile, in any order of requests and across restarts. Meshes read back from the cache equal the ones written in vertices, triangles, colors, texture coordinates, texture mapping and name.',
  ['histories','inputs'],'all bounded sequences of tile requests, restarts and cache on/off switches over several tiles, levels and stylesheets, and all mesh/element shapes of a bounded grammar',
  'Tests read back one cached tile; interference between tiles, stylesheets and requests needs history enumeration.',
  ['core/src/builders/MeshCache.cpp','core/src/builders/CacheBuilder.hpp',I+'MeshStream.cpp',I+'ElementStream.cpp'],
  [('cache file per stylesheet, level and tile','core/src/builders/MeshCache.cpp')],None,['getDataByQuadKey callbacks','MeshCache'])
p('C12','An incomplete cached tile is never served as a complete one',
  'If building a tile is cancelled, fails or the process dies at any point while the tile is being written to the mesh cache, a later request rebuilds the tile instead of delivering the unfinished cache entry. Only entries whose writing completed are ever read back.',
  ['crash_points','fault_sequences'],'every write of the cache file as a crash point (including torn writes), every callback position as a cancellation or failure point, every interleaving of three builds of a tile, then a repeat of the request',
  'Tests never interrupt cache writing.',
  ['core/src/builders/MeshCache.cpp','core/src/builders/CacheBuilder.hpp'],
  [('completion status at the start of a cache file','core/src/builders/MeshCache.cpp')],None,['getDataByQuadKey callbacks'])
p('C13','Parallel tile requests behave as if they ran one after another',
  'Several threads may request tiles, text searches and elevations at the same time: each request delivers exactly what it would deliver alone, no request sees data of another one, and no shared table, cache or pool is corrupted. There is no deadlock.',
  ['schedules'],'all thread interleavings up to a preemption bound of two to three concurrent requests on the real code under a controlled scheduler, with data race detection on every schedule',
  'Tests are single threaded; races need particular interleavings.',
  ['core/shared/Application.hpp','core/src/builders/MeshPool.hpp','core/src/builders/MeshCache.cpp','core/src/index/PersistentElementStore.cpp','core/src/mapcss/StyleProvider.cpp','core/src/heightmap/'],
  [('mutexes in pool, caches and tables','core/src')],None,['getDataByQuadKey, getDataByText, getElevationByQuadKey'])
p('C14','Shared string table and stylesheet stay consistent under concurrent use',
  'When several threads intern or resolve strings, evaluate styles or gradients of the same stylesheet, or take and return meshes of the shared pool, every thread obtains the same answers as in a sequential run, equal strings get one id, and no mesh is handed to two users at once.',
  ['schedules'],'all interleavings of two or three threads with a few operations each, up to a preemption bound, at synchronisation points, with race detection in between',
  'Tests are single threaded.',
  [I+'StringTable.cpp','core/src/mapcss/StyleProvider.cpp','core/src/builders/MeshPool.hpp'],
  [('mutex per object',I+'StringTable.cpp')],None,['StringTable','StyleProvider','MeshPool'])
p('C15','A bounded cache keeps exactly the most recently used entries',
  'The least-recently-used cache holds at most its capacity; it returns the value last stored under a key while that key is among the most recently used ones, evicts only the least recently used entry, and reports missing keys as missing.',
  ['histories'],'all operation sequences up to a bounded depth over more keys than the capacity',
  'Tests run one or two sequences.',
  ['core/src/utils/LruCache.hpp'],[('list plus map','core/src/utils/LruCache.hpp')],None,['LruCache'])
p('C16','MapCSS rules apply to exactly the elements their selectors describe',
  'A style rule applies to an element exactly if the element kind, the level of detail and all of the selector conditions (presence, equality, inequality, less, greater) hold for it, and a declaration of a later matching rule overrides earlier ones for that element while other declarations are kept. An element is visible on a level exactly if some rule for its kind matches there.',
  ['inputs','programs'],'all small stylesheets of a bounded grammar (selector kinds, grouped selectors, zoom ranges, condition operators, one to three rules) times all tag assignments, kinds and levels',
  'Tests check one stylesheet per feature; interaction of filters, order and levels is combinatorial.',
  ['core/src/mapcss/MapCssParser.cpp','core/src/mapcss/StyleProvider.cpp','core/src/mapcss/StyleSheet.hpp','core/src/mapcss/Style.hpp'],
  [('per level, per kind filter collections','core/src/mapcss/StyleProvider.cpp')],None,['StyleProvider::forElement, hasStyle'])
p('C17','Style values evaluate to what the stylesheet author wrote',
  'Numbers, sizes in meters or percent, strings, booleans, colors and gradients in a stylesheet, and expressions over element tags, evaluate to the value their notation denotes, for every element; operators apply from left to right and a tag the element does not have counts as zero or empty. A gradient returns the given color at each of its stops, a linear mix between neighbouring stops, and the first or last color outside of them.',
  ['inputs','programs'],'all values and expressions of a bounded grammar (operators, precedence, parentheses, tag references, units, color notations, gradient stops) against an independent evaluator',
  'Tests evaluate a few expressions.',
  ['core/src/mapcss/StyleEvaluator.cpp','core/src/mapcss/StyleEvaluator.hpp','core/src/mapcss/StyleDeclaration.hpp','core/src/mapcss/ColorGradient.hpp','core/src/utils/GradientUtils.cpp','core/src/mapcss/Style.hpp'],
  [('expression tree evaluation','core/src/mapcss/StyleEvaluator.cpp')],None,['Style::getValue/getString/getColor','ColorGradient::evaluate'])
p('C18','L-systems rewrite and draw according to their rules',
  'An L-system description is parsed into exactly its settings and rules, is rewritten generation by generation from its axiom with every symbol replaced by a rule for it, and is drawn by a turtle whose position, orientation, size and saved states follow each drawing command. No description of the language makes the turtle crash or lose a saved state.',
  ['programs'],'all command words up to a bounded length and all small rule systems against an independent turtle and rewriting model',
  'Tests check single commands.',
  ['core/src/lsys/','core/src/builders/generators/LSystemGenerator.cpp'],[('turtle interpretation','core/src/lsys/Turtle3d.cpp'),('grammar','core/src/lsys/LSystemParser.cpp')],None,['LSystemParser','Turtle','Turtle3d'])
p('C19','Elevation queries return the height of the covering data cell, worldwide',
  'A height query against grid or SRTM data returns the bilinear mix of the stored samples around the point, in any hemisphere and at file, tile and cell borders, regardless of what was queried before. At a sample the stored height is returned, and missing files are reported as errors.',
  ['inputs','histories'],'all points of a lattice over cells, borders and corners of small synthetic height files in all four hemispheres, in every order of a few queries',
  'Tests query a few points of one file.',
  ['core/src/heightmap/'],[('sample lookup and interpolation','core/src/heightmap/SrtmElevationProvider.hpp, GridElevationProvider.hpp')],None,['ElevationProvider::getElevation'])
p('C20','Building, barrier, tree and lamp meshes are well formed and on their element',
  'Each mesh delivered for a tile has finite vertices, triangle indices that refer to existing vertices, exactly one color per vertex, texture coordinates and texture mapping in step with the vertices and the texture regions its style asks for. A building stands on its footprint and on the ground at it, with the heights of its style: its roof and its floor cover the footprint, its walls follow every edge of it (holes included) and face outwards, and nothing reaches out of it; a building which consists of parts is one mesh with all of them. Barriers follow every edge of their line or area, and pillars, trees and lamps are repeated along it at the step asked for, standing on the ground. This holds for all roof and facade kinds, whatever the shape and tags of the element.',
  ['inputs','configurations'],'all element shapes of a bounded family (sizes, orientation, concavity, holes, hemispheres, degenerate shapes) times all building, roof, facade, barrier, lamp and tree styles',
  'Tests build a few shapes and mostly check that meshes are not empty.',
  ['core/src/builders/'],[('mesh assembly','core/src/builders/MeshBuilder.cpp'),('buildings','core/src/builders/buildings/BuildingBuilder.cpp'),('barriers','core/src/builders/misc/BarrierBuilder.cpp')],None,['mesh callback of getDataByQuadKey','MeshBuilder'])
p('C21','Terrain covers its tile completely, without overlap, once per tile',
  'The terrain surface built for a tile covers the whole tile rectangle exactly once: no point of the tile is left without a surface, no two surface triangles overlap, and nothing lies outside the tile. Each spot has the look of the topmost thing there: layers by their sort order, smaller areas above larger ones where no layer is given. Vertices on the tile border carry no noise, so that neighbouring tiles meet. Things which are raised or sunk have walls along their rim and nowhere else, and every vertex has the texture of its look.',
  ['inputs','configurations'],'all placements of up to three area or line elements on a coarse lattice of a tile, with all layer orders, compared with an exact area oracle',
  'Tests check that some mesh is produced.',
  ['core/src/builders/terrain/','core/src/utils/GeometryUtils.hpp','core/lib/clipper/','core/lib/triangle/'],
  [('layer subtraction and grid splitting','core/src/builders/terrain/SurfaceGenerator.cpp')],None,['mesh callback of getDataByQuadKey'])
p('C22','Triangulating a polygon covers exactly the polygon',
  'Building a plane mesh from a polygon with any number of outer rings and holes yields triangles that lie inside the polygon, do not overlap and together have its area, with the orientation and height asked for. Extrusions and triangles added individually appear with exactly the given corners, on both sides if requested, and every vertex is mapped to the texture it was built with.',
  ['inputs'],'all simple polygons on a small lattice, with and without a hole, with every build option',
  'Tests triangulate one or two squares.',
  ['core/src/builders/MeshBuilder.cpp','core/src/math/Polygon.hpp','core/lib/triangle/'],
  [('constrained triangulation','core/src/builders/MeshBuilder.cpp')],None,['MeshBuilder::addPolygon/addPlane/addTriangle'])
p('C23','A tile request delivers each visible element once, through its builders',
  'Requesting a tile calls the builders named by the style for every stored element visible at that level exactly once, even if the element was stored in several stores or reached through overlapping data, and never for elements which are invisible at the level or belong to other tiles. Requests are independent of earlier requests.',
  ['histories','inputs'],'all bounded assignments of elements to stores, tiles, levels and styles, and sequences of requests',
  'Tests request one element.',
  ['core/src/builders/QuadKeyBuilder.cpp',I+'GeoStore.cpp',I+'ElementVisitorFilter.hpp','core/src/builders/ExternalBuilder.hpp'],
  [('per request builder set and id set','core/src/builders/QuadKeyBuilder.cpp')],None,['element and mesh callbacks of getDataByQuadKey'])
p('C24','Tile addressing and geodesy agree everywhere on the globe',
  'Every coordinate on earth below the projection limits lies in exactly one tile of each level, the tile bounding boxes of a level partition the map and nest across levels, and tile names are unique and reversible. The set of tiles visited for a bounding box is exactly the set of tiles touching it, and distances, offsets and conversions are consistent with each other in all hemispheres.',
  ['inputs'],'all tiles of low levels, all border and corner neighbourhoods of sampled columns and rows of deep levels, and all coordinate lattice points',
  'Tests check a few coordinates.',
  ['core/src/utils/GeoUtils.hpp','core/src/BoundingBox.hpp','core/src/QuadKey.hpp','core/src/LodRange.hpp'],
  [('mercator tile arithmetic','core/src/utils/GeoUtils.hpp')],None,['GeoUtils','BoundingBox'])
p('C25','Managed and native code agree on tiles and coordinates',
  'The C# side computes the same tile for a coordinate, the same tile bounding box and the same set of tiles for a region as the native library, and converts between geographic and map coordinates and back without drift, in all hemispheres.',
  ['inputs'],'the same lattice of coordinates, levels and regions fed to both sides',
  'The two implementations have separate tests with separate examples.',
  ['unity/library/UtyMap.Unity/Utils/GeoUtils.cs','unity/library/UtyMap.Unity/QuadKey.cs','core/src/utils/GeoUtils.hpp'],
  [('two implementations of the same arithmetic','GeoUtils.cs / GeoUtils.hpp')],None,['GeoUtils'])
p('C26','Range queries over the interval tree return exactly the matching items',
  'The interval tree used for tile and zoom-dependent lookups returns for each point or interval exactly the items whose range contains or intersects it, after any sequence of additions and removals. Ranges report containment and intersection as their ends say, and the shared set and dictionary behave as plain ones after any sequence of operations.',
  ['histories'],'all sequences of add/remove/query up to a bounded depth over a small set of overlapping ranges',
  'No sequence test exists.',
  ['unity/library/UtyMap.Unity/Infrastructure/Primitives/'],[('interval tree','RangeTree')],None,['RangeTree'])
p('C27','A managed tile owns its objects until disposal and releases them exactly once',
  'An element shown by a loaded tile is reported as shown until the last tile that registered it is disposed. Observers of the managed data store get each mesh and element of a tile once, as the native library made it, and are told once that the tile is there, after its data was imported; a disposed or cancelled tile delivers nothing any more and releases its objects once. Elements handed to native code come back unchanged, searches can be cancelled, and requests made after a failed one are served.',
  ['histories','schedules'],'all bounded sequences of register, load, observe, cancel, fail and dispose over a few tiles and elements, in every order in which pool tasks can run',
  'Tests cover a single tile on the ordinary course of events.',
  ['unity/library/UtyMap.Unity/Tile.cs','unity/library/UtyMap.Unity/Data/MapDataStore.cs','unity/library/UtyMap.Unity/Data/MapDataLibrary.cs'],
  [('id registry and cancellation','Tile.cs'),('import, build and notify pipeline','MapDataStore.cs')],None,['Tile','MapDataStore'])
p('C28','Downloaded map and height data covers the tile and is stored where it is read',
  'For each tile the managed providers ask the server for map and height data that covers it and store the answer under the name the native library reads, with the same heights. Each request is answered exactly once, whatever the order in which downloads complete; the same file is not downloaded twice at a time; a failed or aborted download leaves no broken file behind, does not disturb other requests and can be repeated. Archives are unpacked to exactly the bytes packed.',
  ['inputs','histories','schedules'],'all tiles of low levels and a grid of deep ones for each provider; all bounded histories of requests, completions, failures and passing time; all small archive contents and layouts',
  'Tests download one known tile with a mocked network which always answers at once.',
  ['unity/library/UtyMap.Unity/Data/MapDataProvider.cs','unity/library/UtyMap.Unity/Data/Providers/','unity/library/UtyMap.Unity/Infrastructure/IO/','core/src/heightmap/'],
  [('download, unpack, store pipeline','MapDataProvider.cs'),('file names agreed with native height providers','SrtmElevationDataProvider.cs / SrtmElevationProvider.hpp')],None,['MapDataProvider','getElevationByQuadKey'])
if __name__=='__main__':
    for x in P: print(json.dumps(x))
