"""Registry of checks: property id -> harness parts, level, rule text."""
CHECKS = {
 'C01': dict(level='model_checking', technique='explicit-state exploration of all bounded operation histories of the real string table against a reference map',
   parts=[dict(harness='c01')],
   rule='every word of length <= 5 (thorough 6) over {intern one of 6 texts incl. a colliding pair, close and reopen, resolve all, resolve an unknown id}; plus table sizes, text lengths and byte values around every capacity. A case is non-trivial if its final id/text assignment was compared; distinct = distinct assignments.',
   assumptions=['texts contain no NUL character', 'a directory is used by one table at a time']),
 'C02': dict(level='fault_enumeration', technique='exhaustive process-death injection at every file write of bounded histories of the real string table',
   parts=[dict(harness='c02')],
   rule='every history of length <= 4 (thorough 6) over {intern one of 4 texts (one longer than the stream buffer), close and reopen}, with or without a final close, times every mutating system call as the point of death, times {nothing, half, all but one byte} of that write reaching the file when it is longer than 16 bytes; distinct = distinct vectors of recovered prefixes.',
   assumptions=['writes complete in program order (death of the process, not of the machine)', 'a write of at most 16 bytes is not torn']),
 'C15': dict(level='model_checking', technique='explicit-state exploration of all bounded operation histories against a list model',
   parts=[dict(harness='c15')],
   rule='every history of put/get/peek/promote/clear over capacity+1 keys, capacities 1..4, length <= 5..7; final states drained to expose the eviction order. A case groups the histories with the same first two operations; distinct = distinct sequences of final states.'),
 'C03': dict(level='exploration', technique='exhaustive enumeration of element shapes and short element sequences through the real stores',
   parts=[dict(harness='c03')],
   rule='element kinds x tag, point and member counts around every encoding boundary up to 65535 (tags and members of relations too), ids, coordinate bit patterns, tag ids, relation trees up to depth 2 (thorough 3), and all sequences of up to 4 (thorough 5) of 8 element shapes; each stored in memory and on disk, read twice, after a flush and after reopening. Non-trivial: at least one element compared; distinct = distinct stored contents.',
   assumptions=['element lies in the tile it is stored in']),
 'C04': dict(level='model_checking', technique='explicit-state exploration of all bounded operation histories of both real stores against a reference model',
   parts=[dict(harness='c04')],
   rule='every history of length <= 4 (thorough 5) over 15 operations (add 3 elements to 3 tiles on 2 levels, tile query, text query, cancelled query, erase, flush, reopen, visiting more tiles than the store keeps open) and one longer over a reduced alphabet; every tile, hasData and two text queries compared after the history and after reopening. distinct = distinct histories/model states.',
   assumptions=['a tile is queried only when the store reports data for it, as the library does']),
 'C06': dict(level='exploration', technique='exhaustive enumeration of stored term sets and queries, real stores against a brute force oracle',
   parts=[dict(harness='c06')],
   rule='all assignments of term subsets (of 3) to up to 3 elements x all 256 role assignments (none/not/and/or) of 3 known and 1 unknown terms; sparse term positions in tiles of up to 163 (thorough 323) elements with the index re-read in between; every token separator; boxes on a lattice over tiles of 3 levels in 4 hemispheres x all level ranges; erase/reopen histories on disk. distinct = distinct result sequences.',
   assumptions=['query boxes do not lie exactly on tile borders']),
}
CHECKS['C24'] = dict(level='exploration', technique='exhaustive enumeration of tiles, boxes and coordinates of a bounded lattice against independently computed tile borders',
   parts=[dict(harness='c24')],
   rule='all tiles of levels 1..8 (thorough 10), tiles around every power-of-two and sixteenth boundary on deeper levels; all boxes from those tiles spanning 1..4 x 1..3 tiles with 3^4 positions within the border tiles; one degree lattice of coordinates on all levels; all box pairs of a lattice; distances and offsets over the globe (1% accuracy); all triangles and quads of a 4x4 lattice for point in polygon. distinct = distinct tiles/boxes.',
   assumptions=['coordinates exactly on a tile border may belong to either tile'])
CHECKS['C16'] = dict(level='exploration', technique='exhaustive enumeration of stylesheets of a bounded grammar times elements, real parser and style provider against a brute force matcher',
   parts=[dict(harness='c16')],
   rule='all single rules over 6 kind lists x 6 zoom ranges x all lists of one or two of 11 conditions; all condition triples x all key orders of the string table; all pairs (thorough triples) of 29 selectors as separate rules and as one grouped rule, incl. element and canvas rules; 3 layouts with comments; imports nested up to 2; all pairs of 28 numbers under each operator; each evaluated for 30 tag sets x 4 kinds x up to 8 levels. distinct = distinct vectors of matched declarations.',
   assumptions=['compared values of < and > are numbers', 'a tag key occurs once per element', 'conditions hold only for elements which have the key'])
CHECKS['C17'] = dict(level='exploration', technique='exhaustive enumeration of style values and expressions of a bounded grammar, real parser and evaluators against independent ones',
   parts=[dict(harness='c17')],
   rule='all expressions of up to 3 (a third; thorough all) and 4 operands from 12 (5) operands with all operators in 3 layouts; numbers, meters, percents against sizes and boxes; all values of each color channel; 60 named colors; all gradients of 2..4 stops from 8 colors and 5 positions evaluated at 101 points; texture atlases of up to 5 regions. distinct = distinct sources.',
   assumptions=['operators of an expression apply from left to right', 'channels of mixed colors may differ by rounding (2 of 255)'])
CHECKS['C18'] = dict(level='model_checking', technique='explicit-state exploration of all bounded command words and rule systems of the real parser and turtles against an independent frame and rewriting model',
   parts=[dict(harness='c18')],
   rule='all words of length <= 4 (thorough 5) over the 16 commands x 3 angle/scale settings; all rule systems of one rule (and pairs of rules) with words of <= 2 of 4 symbols, all axioms <= 2, generations 0..3 (4), zero/one/split probabilities, 3 layouts with comments; nesting of saves up to 40; all drawing words of length <= 3 (4) over 13 shape/state commands checked for position, extent, enclosed volume, color and texture mapping of every shape. distinct = distinct final states, derived words and meshes.',
   assumptions=['words do not start with F or G', 'comments stand on lines of their own'])
CHECKS['C19'] = dict(level='model_checking', technique='exhaustive enumeration of query points and of bounded query histories of the real providers against the samples written to their files',
   parts=[dict(harness='c19')],
   rule='12 single cells and 6 groups of neighbouring cells in all hemispheres (both SRTM resolutions) x 15x15 positions at, between and next to samples and borders x 3 tile levels; all histories of length <= 3 (thorough 4) over 6 queries of present, absent and damaged cells and a file appearing; grids of 8 resolutions on 108 tiles x up to 35x35 positions, 4-step histories over 5 tiles. distinct = distinct height sequences.',
   assumptions=['the point is below 180 degrees east', 'SRTM voids are not special'])
CHECKS['C05'] = dict(level='exploration', technique='exhaustive enumeration of geometries on a lattice around tile borders through the real store against an independent geometric oracle',
   parts=[dict(harness='c05')],
   rule='on tiles of 6 levels at the equator, meridian and elsewhere: all nodes and all lines of 2 points of a 6x6 lattice around the tile (incl. its borders and corners), a third of (thorough: all) lines of 3 and, thorough, all of 4 points of a 4x4 lattice; all simple triangles of the 6x6 and simple quads (thorough pentagons) of the 4x4 lattice; zigzags and combs of 2..12 teeth over 5x5 tiles; all relations of up to 3 of 10 members incl. a nested one; relations with members on and along the borders of tiles; stored by level range, by tile and by bounding box, with clip, plain and skip styles. Each tile around is compared with exact clipping. distinct = distinct shapes of stored results.',
   assumptions=['stored geometry has a resolution of 1e-7 degree'])

CHECKS['C22'] = dict(level='exploration', technique='exhaustive enumeration of lattice polygons with holes times build options, real triangulation against exact integer geometry',
   parts=[dict(harness='c22')],
   rule='all simple rings of a 3x3 lattice and of 3..4 (every fourth 5; thorough 5 and every eighth 6) points of a 4x4 lattice, straight vertices included, both orientations, open and closed; as outer ring and as hole of a box and of a concave outline; all pairs of triangles/quads of two 2x3 lattices as outers and holes; 4 places and scales x 5 option sets (refinement, border splitting, flipping, fixed and sampled height, noise, texture), a fifth of the combinations each (thorough all); planes between all lattice points and triangles of 4 corners with and without back side; all sequences of 4 (thorough 5) appearances which differ in one field each, with 0 to 2 triangles between: every vertex is mapped to the texture it was added with. distinct = distinct meshes sizes.',
   assumptions=['rings of one polygon do not touch'])
CHECKS['C21'] = dict(level='exploration', technique='exhaustive enumeration of element placements in a tile times layers and styles through store, clipping and terrain builder against exact areas and a point lattice',
   parts=[dict(harness='c21')],
   rule='32 shapes on a lattice of quarters of a tile and its surroundings (areas of either direction, concave, split in parts by the border, degenerate; relations with holes, islands in holes, rings around the tile; lines also crossing themselves) x 4 layers (none, above, between, below) x 5 option sets (grid size, refinement, noise, height offset, named meshes, levels, widths of two factors, textures) x 7 tiles of all hemispheres and levels 2..16; every third pair of them (thorough all) and every 311th triple (thorough every 7th). Each mesh is checked triangle by triangle (orientation, tile, one color, heights, no noise on the border), texture and its coordinates of every vertex, walls of looks with a height offset (heights, length as the rim, facing), total area and area of every look against exact areas of the topmost layers, and 529 points for the look there. distinct = distinct numbers of triangles.',
   assumptions=['elements of equal area without layer may be drawn in either order','a tile without terrain elements has no surface','triples where the triangle library reports an internal error, those of shapes 9, 21 and 26, and one pair where it does not end are the known findings'])
CHECKS['C20'] = dict(level='exploration', technique='exhaustive enumeration of lattice footprints, lines and member lists times builder styles through the real builders against a geometric oracle',
   parts=[dict(harness='c20')],
   rule='buildings: 7 roofs x 3 facades x 5 settings of height, min-height (0, a part and most of the height), roof height and direction, on simple rings of a 3x3 lattice (3..4 corners all, 5..6 a part; thorough all, and a part of 7), multipolygons with every hole of 3..4 corners, two holes, and one or two outer rings, skillion roofs in 16 named and 14 numeric directions on convex rings of a 4x4 lattice (low side along the direction, high corner opposite), relations of 3 parts in all 125 combinations of 5 kinds, all degenerate outlines of up to 4 of 4 points, at 4 places of all hemispheres; walls (5 settings), pillars, trees and lamps (3 steps, with and without road width) on all lines of up to 3 (thorough 4) of 5 points, repetitions included, as node, way, area and relation. Each mesh is checked for its numbers, colors and textures in step, and against its footprint: roof and floor area, each wall triangle along its edge and facing outwards, each barrier part and copy at its place on the ground. distinct = distinct mesh sizes.',
   assumptions=['style values are positive', 'rings of one building do not touch', 'a round roof over an outline which is not a parallelogram may lean out of it'])
CHECKS['C23'] = dict(level='exploration', technique='exhaustive enumeration of element/store/level assignments and add-request histories through the real store and tile builder',
   parts=[dict(harness='c23')],
   rule='9 elements (same ids on different kinds, id 0, ways split into parts, relations) x 3 stylesheets (one or more builders per element, levels, clipping) x 7 tiles of two levels: builder calls of each element alone by the book; every pair of elements in every combination of sets of 3 stores (two in memory, one persistent); every third (thorough every) subset of elements in two stores in 4 arrangements; every range of levels the storing rule names x ranges the requesting rule names x requests of levels 1 to 19, two builders; all histories of 3 (thorough 4) additions and requests. A request must be exactly the union of what its elements deliver alone, each builder made, prepared and completed once. distinct = distinct deliveries.',
   assumptions=['an element with id 0 cannot be recognised as stored twice'])
CHECKS['C08'] = dict(level='exploration', technique='exhaustive enumeration of relation graphs, ring cuttings, member orders and broken variants imported by the real code, against an independent reading of the data',
    parts=[dict(harness='c08')],
    rule='all graphs of three relations of three kinds with member lists of up to 2 (one of 3) over 10 members incl. missing ones and each other, chains and cycles of up to 12 relations in all strides of ids; 9 ring layouts with every cutting into up to 5 (thorough 6) ways, every member order and direction, each also with one way left out; all multipolygons of up to 3 (thorough 4) of 15 valid and invalid ways with all roles; ways with every subset of their nodes missing; layouts whose rings touch each other; relations of up to 1000 members, rings of up to 1000 ways and up to 257 rings and holes (thorough 8000). Every case writes a file, imports it through GeoStore and compares everything stored with what the data says. distinct = distinct stored contents.',
    assumptions=['every style matches every element, so nothing is filtered by styling', 'a member that contains the relation itself is dropped', 'a multipolygon with a missing or unclosed way is stored without areas (the code says so), never with wrong ones', 'an area tagged as part of a building relation is not at the same time the outer ring of an untagged multipolygon'])

CHECKS['C11'] = dict(level='model_checking', technique='explicit-state exploration of all bounded request/restart histories through the C API, compared with a session without cache',
   parts=[dict(harness='c11')],
   rule='4 tiles (3 levels) x 6 stylesheets (equal prefixes, included files, different textures, terrain and elements) x 3 elevation kinds: every history of up to 3 (thorough 4) requests and restarts from cold, every cache on/off pattern; all mesh and element shapes of a bounded grammar through the real cache file. Each delivery is compared with the one without cache. distinct = distinct deliveries.',
   assumptions=['meshes are equal up to single precision', 'data of a tile does not change once it is cached', 'the order of deliveries within a request is not promised', 'cache directories exist for levels 1..16'])
CHECKS['C12'] = dict(level='fault_enumeration', technique='exhaustive injection of process death, write faults, cancellation and failures at every point of a tile request with cache',
   parts=[dict(harness='c12')],
   rule='process death at every write of the cache file (nothing, a part, all but one byte of it written), at every mutating system call of the session, and twice in a row; a full disk and short writes at each write; cancellation at every delivery, elevation query, cold and warm; failures of elevation queries, receivers and missing height files at every position; a second request of the same tile started during each delivery; every interleaving of the steps of three builds of one tile on one mesh cache (complete, cancelled, given up), with a restart at every state. Afterwards the tile is requested again, with and without restart, and compared with a session without cache. distinct = distinct outcomes.',
   assumptions=['writes complete in program order (death of the process, not of the machine)', 'meshes are equal up to single precision'])
CHECKS['C14'] = dict(level='model_checking', technique='exhaustive exploration of thread schedules up to a preemption bound: the real code under a controlled scheduler with happens-before race detection',
   parts=[dict(harness='c14')],
   rule='2 threads with all words of <= 2 (3 threads: 1) over 7 operations on the string table (ids and texts of new, known and hash-colliding strings) x 4 initial tables; all pairs (thorough triples) of 11 style operations and words of two; all words of <= 3 (thorough 4) over take small/large, give back on the mesh pool; pairs and triples of polygons triangulated at once. Every schedule with <= 2 (thorough up to 4) preemptions at locks, atomics, guarded initialisations and file operations is executed; on each, all other memory accesses are checked to be ordered (vector clocks), and all answers compared with those of the operations alone. distinct = distinct schedules and answers.',
   assumptions=['memory accesses between two synchronisation points of a race free schedule may be reordered freely', 'code inside of libstdc++.so and libc which is not instantiated in the library is free of races'])
CHECKS['C13'] = dict(level='model_checking', technique='exhaustive exploration of thread schedules up to a preemption bound: the real exported functions under a controlled scheduler with happens-before race detection',
   parts=[dict(harness='c13')],
   rule='all pairs of 10 requests (tile with known and new stylesheet, text queries, heights, hasData, registering of stylesheets) and of each with one of 3 imports (another tile, the same tile, two elements), on a store in memory and on disk, untouched and after earlier requests; SRTM and five triples; eight pairs with terrain meshes with and without mesh cache, cold and warm. Every schedule with <= 2 preemptions (1 for triples, meshes and after earlier requests; thorough 3 and 2) at locks, atomics, guarded initialisations, file operations and deliveries is executed; all other memory accesses are checked to be ordered; each request must deliver what it delivers alone (with an import of its tile: before, after or between its elements), and five requests afterwards what they deliver after a sequential run. distinct = distinct schedules and deliveries.',
   assumptions=['imports follow each other, stores are registered and the mesh cache is switched before', 'code inside of libstdc++.so and libc which is not instantiated in the library is free of races'])
CHECKS['C07'] = dict(level='exploration', technique='bounded exhaustive enumeration of data sets x file layouts through the real importers, compared with the data the files were written from',
   parts=[dict(harness='c07')],
   rule='8 places (all quadrants, near poles and the antimeridian) x 16 data sets (nodes, dense blocks of 60 nodes, open/closed/long ways, 64 bit and unordered ids, relations of every kind, 20 of each) x 7 tag sets (escapes, UTF-8, empty, long) x 288 XML layouts (white space, extra attributes, header elements, entity style, self-closing) / 432 PBF layouts (granularity, offsets, dense/plain/mixed nodes, grouping into blocks, raw/zlib/stored); GeoJSON: pairs of 14 geometries x tags x 8 layouts; shape files: 3 types x XY/Z/M x 15 attribute combinations x up to 3 records. Two places run in full (XML, GeoJSON, shape), others sampled by a fixed stride in quick. distinct = distinct imported results.',
   assumptions=['nodes precede the ways that use them, as OSM files do', 'closing point and direction of GeoJSON and shape lines and rings are not significant', 'multipoint and multi-part line records of shape files are reported as unsupported'])
CHECKS['C09'] = dict(level='fault_enumeration', technique='exhaustive enumeration of damage positions and invalid calls against the real importers and exported functions, with a probe of all earlier data after each',
    parts=[dict(harness='c09'), dict(harness='c09b')],
    rule='small files of each format (XML, PBF, JSON, shape with its companions): every truncation, every byte replaced by 12 values (thorough more), every part or message field of PBF and every 4 byte field of shape files replaced by extreme values: an error or an import of a complete file, never a crash, nothing stored after an error, the intact file imports afterwards; every pair (quick: a seventh of the second ones) of ~110 invalid calls of the exported functions (stores, files, styles, levels, tiles, heights) on stores in memory and on disk, with all earlier tiles, texts and heights probed after each; all words of <= 5 connects, failed connects and disconnects; every truncation and token damage of a stylesheet and the files it includes; truncated and damaged height files; all under the address sanitizer',
    assumptions=['a missing @import is ignored as in CSS (stylesheets of the demo rely on it)', 'registerStylesheet, hasData and getElevationByQuadKey have no error callback: their report is the exception', 'damage that leaves a well formed file of other content is not an error', 'an empty PBF file is complete'])
CHECKS['C10'] = dict(level='fault_enumeration', technique='exhaustive enumeration of cancellation points: every read of the token by the real code is trapped and in turn made the first one to see the cancellation',
    parts=[dict(harness='c10')],
    rule='tile requests (4 tiles of 3 levels x 3 stylesheets with terrain, buildings, barriers, trees and objects x 3 elevation kinds) and text queries on one or two stores, in memory and on disk, with and without mesh cache: cancelled at every read of the token and by the caller inside of every delivery, each followed by a complete repeat; imports of a tile from XML, PBF, JSON and shape files cancelled at every read, and at pairs of reads (quick: an eighth of the second ones), on stores in memory and on disk, before and after a restart, with data in other tiles and in the same tile of another store; imports by levels and box: complete after the repeat',
    assumptions=['a cancelled import of a tile empties that tile of the store (GeoStore erases it), the other stores keep theirs', 'removing the data of a cancelled import by levels or box is not implemented and reported as an error'])

CHECKS['C25'] = dict(level='exploration', technique='exhaustive enumeration of coordinates, tiles and regions around tile borders fed to both real implementations',
   parts=[dict(harness='c25', cs=True, native=['geo'])],
   rule='16 levels x all tiles of the low levels, border and corner tiles and their neighbours of the others, in all hemispheres: tile of coordinates at, between and next to borders, bounding boxes, names; all regions between lattice coordinates: tiles visited, in the order of the spiral each exactly once; distances, offsets, containment and intersection of boxes, projection forth and back. Managed and native results are compared. distinct = distinct answers.',
   assumptions=['a coordinate within rounding of a border between rows of tiles may belong to either', 'tiles which only touch a region may be visited or not', 'SphericalProjection has no inverse (not implemented)'])
CHECKS['C26'] = dict(level='model_checking', technique='explicit-state exploration of all bounded operation histories of the real tree and containers against a plain list',
   parts=[dict(harness='c26', cs=True)],
   rule='tree over all 15 ranges of a lattice of 5 keys, queried at all of them and between and beyond, for 4 kinds of keys (numbers, two comparers, texts): all sets of up to 4 (thorough 6) ranges in two orders, emptied one by one; all histories of up to 4 (thorough 5) additions, removals, clearing, queries, rebuilds and reading of the extrema, with and without automatic rebuild; all pairs of ranges over 5 keys, invalid ones included; all histories of up to 5 (thorough 6) operations on 3 keys of the set and the dictionary. distinct = distinct contents.',
   assumptions=['without automatic rebuild queries answer from the last rebuild'])
CHECKS['C27'] = dict(level='model_checking', technique='explicit-state exploration of all bounded histories of the real managed data store and tiles on the real native library, the thread pool replaced by a scheduler under control of the explorer',
   parts=[dict(harness='c27', cs=True, native=['shared'])],
   rule='registry: all histories of up to 6 (thorough 8) registrations and disposals over 2 and 3 tiles and up to 2 ids, asked after each; store: all histories of up to 5 (thorough 6) actions (request of two tiles with and without data to import, disposal of the last ones, execution of the oldest/newest pool task) x disposal by an observer in each of the first deliveries x one or two observers; elements of 5 shapes x 7 tag sets x 4 ids x 3 level ranges handed to native code and back; text searches with all combinations of 8 terms, cancelled before and in deliveries; 5 kinds of failing imports in 3 ways, each followed by further requests. Each is compared with what the native library hands over without the managed code. distinct = distinct sequences of notifications.',
   assumptions=['what is on its way to a second observer when the first one disposes the tile may or may not arrive', 'a tile counts as delivered although its import failed (the error is traced)'])
CHECKS['C28'] = dict(level='model_checking', technique='explicit-state exploration of all bounded histories of the real download providers, with thread pool, clock, network and file system under control of the explorer, and exhaustive enumeration of tiles and archive layouts',
   parts=[dict(harness='c28', cs=True, native=['shared'])],
   rule='what is asked for: all tiles of the low levels, a grid of the deeper ones with corners and neighbours, 3 sources of map data (by box, by tile) and 3 of heights: the request must cover the tile and the file must be where the native code reads it, which then returns the heights written; histories: all words of up to 5 (thorough 6) of 11 actions (request of 4 tiles, oldest/newest download completes, fails or brings garbage, pool runs oldest/newest task, time passes), each request is answered once, nothing twice at the same time, failures leave nothing behind and can be repeated; archives: all contents over three letters up to a length x stored/deflated/stored blocks, several entries. distinct = distinct histories of requests and answers.',
   assumptions=['what the constructors start in the pool has run before the first request', 'a tile that crosses several SRTM cells only asks for the one of its center (acknowledged in the code)', 'any bytes are accepted as map data'])
