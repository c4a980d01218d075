HEAD='''
# Model checking utymap

(This file is written by `tools/design.py` from `checks.py`, `properties.jsonl`, `known_findings.json`, `seeded/` and `tools/notes.py`.)

utymap turns map data into tiles of meshes: importers (`core/src/formats`) feed stores (`core/src/index`), styles
(`core/src/mapcss`) choose builders (`core/src/builders`, `lsys`, `math`, `meshing`) for the elements of a tile, heights
come from `core/src/heightmap`, everything is exported through a C API (`core/shared`) and used by a C# library
(`unity/library`). The properties C01..C28 cover each of these layers.

## How the checks work

Every check executes **real code** of /repo, compiled from its working tree; there is no abstract model whose binding to
the code would have to be argued. "Model" below means the reference (a list, a map, exact geometry, the sequential run, the
session without cache ...) the real execution is compared with on every single case. Since each case is executed on the
implementation itself, every trace of the model is replayed against the code by construction.

- `build.py` builds the core library and one harness out of the sources of /repo's working tree into `build/` (content
  hashed: a changed source changes the hash, nothing stale can be used). Variants: `asan` (address + undefined behaviour
  sanitizer), `fast`, `pic` (shared library for C#), `mcrt` (instrumented by `-fsanitize=thread` instructions that are
  linked to the scheduler of `harness/mcrt_rt.cpp` instead of the thread sanitizer's runtime). `build_cs.py` does the
  same for the C# library with mcs.
- `harness/mc.hpp` enumerates the cases of a bounded space. A case has a stable textual descriptor; the space is split over
  8 processes; the space is not sampled: where a part is taken ("every third ...") it is a fixed stride, the same in
  every run, and `thorough` takes smaller strides and deeper bounds.
- `run.py PID [--tier quick|thorough] [--replay FILE]` builds, runs the shards, replays every suspected violation in a
  process of its own (so that a violation never depends on earlier cases), compares with `known_findings.json` and
  writes `evidence/PID.json`. A crash, sanitizer report or hang of a shard is attributed to the case it was in
  (`.crumb` file) and replayed as well. A budget that runs out is reported in the evidence.
- Controlled schedules (C13, C14): only one thread runs at a time; at locks, atomics, guarded initialisations, file
  operations and deliveries the explorer chooses who goes on, depth first with a preemption bound (every execution in
  a process forked from the same state); between these points each memory access is instrumented and checked against vector clocks, so a
  race that would make the reduction unsound is itself a violation.
- Faults (C02, C12, C09, C10): mutating system calls are intercepted (`harness/crash.hpp`), the process dies (fork +
  `_exit`) before the call, or after a part of it; tokens are trapped so that each read of them can be the first one to
  see the cancellation; each byte and field of a file is damaged in turn.
- C# (C25..C28): the real C# library is run by mono with the real native library; thread pool, clock and network are
  replaced by implementations under control of the explorer (`harness/cs`).

Levels: *model_checking*: histories or schedules are explored against a reference; *fault_enumeration*: every
crash/cancel/failure point of a bounded set of histories is injected; *exploration*: every input of a bounded grammar is
evaluated against an oracle.

Trust: the harnesses, their oracles, the compilers and the standard library. Nothing in /repo is instrumented by hand: there are no
hooks (`hooks` of MANIFEST.json is empty), all commits in /repo are `fix:` commits.

All effects of the code under test stay in scratch directories below /dev/shm which a run creates and removes.
'''
N={
'C01':dict(oracle='a map from text to id kept by the harness; every operation of a history is applied to the real StringTable on a scratch directory and every answer compared.',
  cost='quick 6 s, thorough below 1 min.'),
'C02':dict(oracle='the list of texts in the order of their first use; after the death a fresh process opens the directory: recovered ids must be a prefix of it, contain all of the last closed state, and go on without a clash.',
  cost='quick 66 s, thorough about 10 min.'),
'C03':dict(oracle='structural comparison of what was given with what is returned, before and after reopening, for both stores.',
  cost='quick 10 s.', notes='coordinates are compared exactly for in-memory and to the resolution of the file format for persistent stores.'),
'C04':dict(oracle='a map from tile to list of elements; both real stores execute the same history; all tiles, hasData and two text queries are compared after each history and again after reopening.',
  cost='quick 23 s, thorough about 8 min.', notes='searching a persistent tile that was never given data creates its files; the library never does so (it asks hasData first), so this is outside of the property.'),
'C05':dict(oracle='clipping in long double written for the purpose: parameter intervals of segments within a box for lines, half-plane clipping and the shoelace formula for areas, for each tile of the neighbourhood; tile membership from the tile borders of the Mercator formula; the parts of all tiles must add up.',
  cost='quick 45 s.', notes='members of a nested relation keep their tags only below the tags of their relation: corrected in the oracle (a false alarm of an early version).'),
'C06':dict(oracle='brute force evaluation of the query over all stored copies.',
  cost='quick 12 s.'),
'C07':dict(oracle='the data set the files are written from (`osm.hpp`, `fmtw.hpp` contain independent writers of XML, PBF, GeoJSON and shape files); both importers must hand over the same elements as the data set says.',
  cost='quick 80 s, thorough about 12 min.', notes='JSON means GeoJSON vector tiles here, not Overpass JSON (the importer reads only the former). Nodes must come before the ways that use them; the closing point and direction of rings are not significant. An early version compared them (false alarm).'),
'C08':dict(oracle='an independent resolver of relations and ring assembly working on the data, by exhaustive matching of ends.',
  cost='quick 100-125 s.', notes='a multipolygon whose ways are missing or unclosed is stored without areas: the code says so on purpose. An outer ring shared between a multipolygon without tags and a building relation is excluded: both want to own it, the code gives it to one of them.'),
'C09':dict(oracle='after each damage or invalid call: an error was reported or the file is complete; earlier tiles, texts and heights are probed; address sanitizer on everything.',
  cost='quick 233 s.', notes='decided to be no violation: an empty PBF file (it is complete), a missing @import (as in CSS; the demo stylesheet relies on it), lenient readings of the stylesheet grammar, texture atlases and l-systems cut at a position where the rest is complete, levels below zero in hasData. Tiles without data do not need heights.'),
'C10':dict(oracle='the uncancelled run; the token is a memory page whose reads are trapped, so that the explorer makes exactly the n-th read the first one to see the cancellation, for all n.',
  cost='quick 37 s.', notes='that a cancelled import of a tile empties the tile (of that store) is by design. Erasing of a cancelled import by range or box is not implemented and answers with an error; a text query may return duplicates after an import by range is repeated: not claimed.'),
'C11':dict(oracle='the same request in a session without cache.', cost='quick 21 s.', notes='the order of deliveries within a request is not promised. Sort order in an area rule has no effect on the terrain, so test styles do not use it.'),
'C12':dict(oracle='a session without cache; for overlapping builds the list of what each of them wrote.', cost='quick about 60 s.'),
'C13':dict(oracle='each request alone; with an import of the same tile: before, after, or between its elements. Five further requests after each schedule are compared with those after a sequential run.',
  cost='quick 127 s, thorough about 15 min.', notes='an early harness counted elements of an import twice and missed a link to the height data in the "alone" run (false alarms, corrected).'),
'C14':dict(oracle='the operations alone, in each order.', cost='quick 31 s.', notes='false alarms corrected in the runtime: stale shadow of memory freed inside libstdc++, the runtime\'s own memset, synchronisation of quiet sections. Those are handled by wrapping malloc/free and by marking the runtime\'s own code.'),
'C15':dict(oracle='a list of pairs in order of use.', cost='quick below 20 s.'),
'C16':dict(oracle='brute force matcher over the abstract rules the stylesheet text is printed from.', cost='quick below 20 s.'),
'C17':dict(oracle='independent evaluators of numbers, expressions, colors and gradients.', cost='quick below 20 s.', notes='"a missing tag must throw" of the first version was too strong: the code counts it as zero or empty, and the stylesheets rely on it.'),
'C18':dict(oracle='a frame (position, direction, right, up) with rotation matrices in double precision and string rewriting written independently; volumes of shapes by the divergence theorem.', cost='quick below 20 s.'),
'C19':dict(oracle='the samples written to the files, mixed bilinearly by independent code.', cost='quick below 20 s.'),
'C20':dict(oracle='exact integer footprint; per triangle position, direction, area; sums over roof, floor and each edge of the walls.', cost='quick 35 s.',
  notes='the directions of skillion roofs are checked only where the center of the area and the center of the corners point to the same edges (the code uses the latter; an early version of the check used the former, a false alarm); a round roof over an outline which is no parallelogram may lean out (by its construction); degenerate outlines may give vertices without triangles; the exact arithmetic of Triangle reads a few bytes over (benign, under ASan excluded); members without tags of a tagged relation given to tree and lamp builders throw "Invalid lsystem" and are left out of the grammar.'),
'C21':dict(oracle='exact areas of every look by polygon clipping of the topmost layers (strips between all corners and crossings, written independently) and a lattice of 529 points; per triangle orientation, bounds, color, heights; per vertex the texture and texture coordinates of its look; walls against the rim of the flat triangles.', cost='quick 24 s, thorough 250 s.',
  notes='equal areas without layer may be drawn in either order; unused duplicate vertices on the border are not judged; a tile without terrain elements has no surface. The known findings are limits of the third-party libraries Triangle and Clipper (one of them an endless loop of Triangle on a contour which is rounded across itself; it runs in a process of its own with a time limit); a case of three elements is attributed to them only if Triangle itself reports an internal error while it runs or if it consists of exactly the shapes 9, 21, 26.'),
'C22':dict(oracle='integer geometry: area, containment and disjointness of triangles on a lattice.', cost='quick 28-48 s.',
  notes='when splitting of the border is forbidden Triangle may leave thin slivers: the bound on the area of triangles is not asked then; refinement may put points within rounding of the border.'),
'C23':dict(oracle='the union of what the elements of the request deliver alone; counters in a builder of the harness.', cost='quick 30 s.',
  notes='the value of "builders" with commas is split at them by the code under test; builders of several matching rules add up. Both are taken as the language\'s meaning.'),
'C24':dict(oracle='tile borders computed from the Mercator formula in long double; spherical distances.', cost='quick 32 s.'),
'C25':dict(oracle='the native implementation, called through a small exported bridge, and invariants (round trip, spiral visits each once).', cost='quick 3 s.',
  notes='within rounding of a latitude border either tile is right, and tiles that only touch a region may be visited or not.'),
'C26':dict(oracle='a plain list of ranges, set and dictionary.', cost='quick 4 s.'),
'C27':dict(oracle='what the native library delivers without the managed code; a reference of the registry (set of pairs).', cost='quick 37 s.',
  notes='the thread pool is replaced by reflection (UniRx Scheduler.ThreadPool), so the explorer runs the tasks. An early harness used a sentinel tile to know when the pool is idle (unsound, replaced). hasData is marshalled as a 4 byte bool and style paths are not locked: judged as no observable defect in the explored space.'),
'C28':dict(oracle='a reference of pending requests; the file system before and after; the native provider reads the heights back.', cost='quick 14 s.',
  notes='the provider subscribes in the pool: that this has run before the first request is assumed. A tile that crosses SRTM cells asks for the cell of its center only (acknowledged in the code). Separators and non-ASCII names of archives are not compared.'),
}
SEEDED='''
Each of them compiles, passes the stable tests and comes with a demonstration. All were written from the text of the property
and the code. "caught by" names the checks that report it in their quick tier.
'''
CAUGHT={}
TAIL='''
## Limits

- The space is bounded (small numbers of elements, threads, operations, a lattice of coordinates). A defect which needs more
  is out of reach, except where sizes around every encoding boundary are enumerated (C01, C03, C06).
- Weak memory orders are not explored: atomics are sequentially consistent in the scheduler. The code uses only defaults.
- Death of the process is explored, not of the machine (writes reach the files in program order).
- Unity scripts (`unity/demo`) need the Unity engine, which is not present; of the C# side only the library is covered.
- The legacy parts of `core/src` not reachable through the exported functions are covered only as far as the harnesses call them directly.
'''
