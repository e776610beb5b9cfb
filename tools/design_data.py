D['P01'] = '''
Every table in constants.hpp is constant-evaluated by the compiler front end and compared with geometry (inverse, length, diagonal flag, adjacency of consecutive codes);
every member of the raster classes that sets the width is interpreted with symbolic dimensions and the stored flat steps compared with dy*width+dx; the converters (ArcGIS, TauDEM) are
interpreted once per input code. Unbounded in the width; exhaustive in the codes.'''
D['P03'] = '''
Every element access made on any path of every harness/app root is an obligation `0<=x<w && 0<=y<h` (or `0<=i<size`). Coordinates taken from containers carry what was proved at all their insertions.
Assumptions, each decided elsewhere: border cells are marked before flooding starts (P14); a direction code stored in a raster keeps inside the grid where the producing metric only stores shares for in-grid neighbours (P25).'''
D['P04'] = '''
For each `omp parallel for`, each write is classified as private, synchronised (atomic, critical, reduction), or indexed; two accesses to the same array by different iterations are disjoint only if the linear solver proves their
index expressions differ whenever the loop variables differ. Reads of what another iteration writes are races as well.'''
D['P05'] = 'Every throw event (including those of callees, `.at()`, and library calls known to throw) whose innermost enclosing region is an OpenMP construct and which is not caught inside that region is a violation.'
D['P12'] = 'Typestate of Timer and ProgressBar objects with the class bodies inlined: a throw in Timer reachable on a feasible path of an operation is the violation. For programs and applications an intraprocedural mode slices away loops that do not touch a timer.'
D['P18'] = '''
The comparison operators are interpreted over all rank patterns (less, equal, greater, NaN) of up to three elements and must be a strict weak order with the promised tie order; insertion numbers must grow by one per insertion and be stored in a field as wide as the counter;
each call site must push the elevation of the cell whose coordinates it pushes.'''
D['P11'] = '''
C++: each public operation has a row naming the parameters it may write (a table read off the documented interface, independent of the bodies); the interpreter collects every write event of the operation and its
callees, resolves it to the root object (through views, references, copies and the shared storage of a wrapped array), and any root not in the row is a violation. Python: the wrapper functions are interpreted abstractly with
one storage identity per argument; a call of an engine function that writes storage reachable from an argument when `in_place` is false is a violation.'''
D['P19'] = '''
All constructors of all record types in the repository are interpreted from a state in which no member has a value; obligations: public members are initialised (or every use site writes them first), private members
are written on every path before a member function reads them, and locals of aggregate type are not read before assignment.'''
D['P20'] = '''
The Python front end (functions and command line) is interpreted abstractly for each documented method/topology/option value; the engine symbol reached is resolved through the pybind11 registration table (from the AST of the wrapper
module) to the template instantiation, and compared with an independent table (name -> algorithm, topology, exponent). The C++ aliases (FA_*/FM_*, Quinn = Holmgren with exponent 1, ...) are interpreted down to the implementing function and its constant arguments.'''
D['P13'] = '''
Each filling / flat-raising / breaching root is interpreted with all callees inlined and each loop as one generic iteration; every store to the input elevation raster is an obligation in an order domain (facts `<=`, `<`, max/min,
nextafter, comparisons on the path). Remembered levels (max-depth filling) and the pit lift of breaching are accepted only under schemes that are themselves checked (the level is never below the cell queued with it; the lift is a running minimum over the neighbours, before
any pop). Selective/constrained breaching with filling on, where raising and lowering both are documented, is not claimed.'''
D['P14'] = '''
Every push of a neighbour of the cell just popped needs, on its path, a test that some raster's mark for that cell is clear, and, in the state at the end of the iteration, a mark that contradicts the test. Seeds need the same mark unless every cell taken from
that queue is marked when it is taken. Line-wise seed loops must together cover all four edges. A requeue of the popped cell inside the neighbour loop must be guarded by a once-only flag. Fill-spill-merge (no flooding) and vector-seeded bucket filling are out of scope.'''
D['P02'] = '''
A neighbour loop is any loop whose iterations read, write or queue a cell obtained from a loop-independent cell by adding a table entry (or a flat step) selected by the counter. The counter is evaluated over its whole range; the steps it selects must be the eight
(four, when the enclosing instance is for D4) compass steps, each once (facet methods: balanced pairs). Each direction must be examined on some path through the body, and no path may leave the loop before recording anything about the neighbours left. The oracle for steps is P01's geometry, so a loop may be
written with any table, order or helper.'''
D['P06'] = '''
Dispatch functions are found by what they branch on (an expression of type GDALDataType), not by name or by being a switch. Their data-type value is unknown; a call or declaration for element type T must be reached only under facts that leave exactly T's code. Outcomes that selected nothing must fail,
and each caller is interpreted with the dispatcher failing. NativeTypeToGDAL is evaluated per instance; each RasterIO/Create call is compared by the static type of its buffer and the value of its type argument. Python: rdarray.wrap and LoadGDAL are interpreted per dtype with pyabs; exported class names are resolved in the typed AST of the wrapper.'''
D['P25'] = '''
Every store into the proportions raster is recorded with the facts of its path. Slot index and marker are evaluated for every value of the direction variable; at the end of each cell's iteration: slot 0 holds one of the three markers; has-flow exactly when a share was stored; the neighbour a share is stored for was
tested inside and not NoData on that path; the cell is set to no-flow before; shares are constants adding to one, or quotients of a term by the sum accumulated from the same terms over the same directions. Direction numbers are those of the D8 tables whatever the topology, because that is how readers decode them.'''
D['P24'] = '''
`main` of each program is interpreted with symbolic `argc` (each `argv[k]` read needs `k < argc` from the path) and again with `argc` fixed to 1, 2, ...: an accepted run must have used what it accepted, and a run without arguments must fail. The documented form is taken from the usage string the program prints;
each `argv[k]` is traced through strings, conversions and calls, and its sink (opened, saved, passed as a named numeric parameter) is compared with the label at that position. Programs that copy argv whole into a container, and the CLI11-based one, are only checked for the reads themselves.'''
D['P10'] = '''
`ManagedVector` is interpreted method by method from every ownership state (owned, lent, empty, moved-from): `delete`/`free`/`unique_ptr` release needs ownership, storage is adopted with the ownership flag that matches its origin, the old storage is released or handed over exactly once on every path (self-assignment
included), a lent buffer refuses every change of size, and a moved-from object owns nothing. Array2D/Array3D wrapping constructors and the Python `rdarray.wrap` are interpreted as callers: the pointer comes from an array kept in a member of the wrapper when it was converted.'''
D['P27'] = '''
Each attribute function is interpreted to one symbolic term per path over the window a..i, the cell sizes and the scale factor (z-scaling is applied by the interpreted code, not assumed). The terms are put in normal form as rational functions with roots and opaque functions as further
variables (`engine/rat.py`), on which the identities are decided: adding a constant, scaling elevations against the factor, swapping cell sizes with axes, scaling all lengths. On tilted planes the value must equal the analytic slope/aspect; on quadratics the analytic curvature. A formula written any other way with the same value passes.'''
D['P21'] = '''
Entropy sources (random_device, time, clock, rand, addresses) may be reached only in `seed_rand` on paths where the seed is proved 0. The terms that seed a generator may depend only on the seed (all of its bits) and on the thread number, must differ between threads (evaluated), and every thread of the team must pass them (no `if`, `num_threads`, `single`, `master`
or worksharing between the region and the seeding). Every draw uses the calling thread's generator, or one built locally from the seed. No distribution or generator keeps state in a static across reseeding; loops that draw may not be dynamically scheduled. C++ and Python entry points must pass the user's seed on unchanged.'''
D['P08'] = '''
Every function that opens, reads or writes a file through GDAL or a stream is interpreted with each operation forked into success and failure: a dataset that does not open is null, a failed transfer an error code, a failed stream stays failed, buffered output may fail until flushed or closed. Obligations: no path with a failed operation ends normally (unless the
failure is the returned value or is in a stream the caller owns); nothing is called on a null dataset; buffered writes are flushed and tested before the normal end. What an iteration leaves in the fault state is carried over further iterations. Not covered: errors GDAL defers to closing, destructors, georeferencing setters.'''
D['P07'] = '''
The function that opens a cache file and writes to it and the one that reads it are found by what they call and interpreted (helpers inlined). The n-th read must have the length of the n-th write, as terms, after replacing what was read by what was written there; each persisted member must at the end hold what was written from it, and all of it. In the
distributed programs, names (string terms over the tile's fields) and retention slots under which rasters are stored must be distinct and be those they are loaded from; `CommPrepare`/`CommRecv` archive the same parameters in the same order, copy all bytes and receive the message that was probed; members of message classes used by both roles (call-graph reachability from the worker
loop and from `main`) must be archived. Transfers made in loops and the zlib variant are not compared.'''
NOTES2 = '''
## Notes

* One prior false alarm per kind was met while building and resolved by making the analysis more precise (loop constants, reductions, storage reached through the underlying vector); none is listed as a finding.
'''
