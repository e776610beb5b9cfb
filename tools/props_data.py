NOTES = ('Every check re-exports the current /repo sources through a clang-based typed-AST exporter (engine/exporter.cpp) and '
         'decides its rule on that; nothing of the analysed program is executed. See DESIGN.md.')

AI = 'abstract interpretation of the type-checked AST'

prop('P01', 'Direction codes, offsets, inverses and foreign numberings agree',
     'Every neighbour direction code denotes the same compass step in every table of the library: a step and its inverse cancel, the stored distance is the Euclidean length of the step, the diagonal flag matches, and the clockwise order around the cell is unbroken. The flat-index step a raster stores for each direction equals that compass step at the raster\'s current width, whichever way the raster got its dimensions. Converting direction codes to or from the ArcGIS and TauDEM numberings maps every code to the code for the same compass step.',
     ['inputs', 'configurations'], 'All direction codes, all conversion inputs, all raster widths and all ways of giving a raster dimensions',
     'Tests run on rasters of a few fixed widths and never exercise the conversions; a wrong table entry for one direction only shows on terrain that uses it.',
     [H + 'common/constants.hpp', H + 'common/Array2D.hpp', H + 'misc/conversion.hpp', H + 'methods/dinf_methods.hpp', 'apps/rd_taudem_d8_to_richdem_d8.cpp'],
     [('direction tables', H + 'common/constants.hpp'), ('flat neighbour shifts', H + 'common/Array2D.hpp resize/loaders'), ('code conversions', H + 'misc/conversion.hpp')],
     claim=('constant evaluation of the typed AST plus abstract interpretation of the raster sizing methods and converters', 'All table entries are compared with geometry; every method that sets raster dimensions is interpreted with symbolic width and its stored shifts compared with dy*width+dx; every arm of each converter is enumerated.'))

prop('P02', 'Neighbourhood scans cover the whole chosen topology',
     'Every algorithm that visits or queues the neighbours of a cell considers each neighbour of the chosen topology: all eight for D8-based methods, exactly the four edge neighbours for D4-based ones, and none twice. A neighbour that lies outside the raster, holds NoData, or has already been visited is skipped individually; it never ends the scan of the remaining neighbours.',
     ['inputs'], 'Every cell, every arrangement of raster edges and NoData around it',
     'A scan that stops at the first missing neighbour or omits one direction only changes results on particular local configurations; tests sample few DEMs.',
     [H + 'depressions/', H + 'flats/', H + 'flowmet/', H + 'methods/', H + 'misc/misc_methods.hpp'],
     [('neighbour loops over direction tables', 'all algorithm headers')],
     claim=('loop-range and exit analysis of every neighbour loop in the typed AST', 'Every loop whose index selects a direction-table entry is found; the set of directions it enumerates and every early exit from it are decided from its header and control flow.'))

prop('P03', 'Algorithms never touch cells outside the raster',
     'For every raster shape and content, the library\'s terrain algorithms read and write only cells that lie inside the raster they address: a neighbour position is used only after it has been established to be inside the grid. This includes one-row and one-column rasters and cells on the border.',
     ['inputs'], 'All raster dimensions (including degenerate ones), all contents',
     'An out-of-range access is silent unless it happens to fault; tests use a handful of shapes.',
     [H + 'depressions/', H + 'flats/', H + 'flowmet/', H + 'methods/', H + 'misc/misc_methods.hpp', H + 'common/Array2D.hpp'],
     [('inGrid/isEdgeCell guards', H + 'common/Array2D.hpp'), ('neighbour loops', 'all algorithm headers')],
     claim=(AI + ' in a relational bounds domain', 'Every raster access on every path through every instantiated algorithm is an obligation 0<=x<width, 0<=y<height; coordinates that travel through queues or rasters are assumed valid only when every stored coordinate is proved valid.'))

prop('P04', 'Parallel loops are free of data races',
     'In every shared-memory parallel loop, a memory location written by one iteration is not accessed by another iteration unless the access is atomic, inside a critical section, a declared reduction, or an iteration-private variable. Results therefore do not depend on thread count or schedule.',
     ['schedules', 'inputs'], 'All thread counts and interleavings',
     'The test suite runs with one thread; a race is invisible there and rare even with many.',
     [H + 'depressions/depression_hierarchy.hpp', H + 'depressions/fill_spill_merge.hpp', H + 'flowmet/', H + 'flats/', H + 'methods/', 'src/random.cpp'],
     [('omp parallel for / critical / atomic / reduction / threadprivate', 'throughout')],
     claim=('effect analysis of parallel regions with a cross-iteration disjointness domain', 'Every write and every conflicting read inside each parallel region is classified private, iteration-owned (index proved injective in the loop variable), synchronised, or racy.'))

prop('P05', 'No exception escapes a parallel region',
     'No error path inside a shared-memory parallel region throws out of it: every exception raised there is handled within the same iteration. Bad input therefore yields a catchable error and never terminates the process.',
     ['inputs', 'schedules'], 'All inputs reaching an error path inside a parallel region',
     'Escaping exceptions only matter on error inputs and terminate the process, which a passing test never does.',
     [H + 'depressions/depression_hierarchy.hpp', H + 'methods/', H + 'misc/misc_methods.hpp', H + 'flowmet/'],
     [('omp parallel regions', 'throughout')],
     claim=('exception-flow analysis over the call graph', 'Every throw reachable (through resolved calls) from a parallel region without an intervening handler is reported.'))

prop('P06', 'Every raster data type is handled as itself everywhere types are dispatched',
     'Wherever the toolkit chooses code by a raster\'s stored data type, each supported type selects code instantiated for exactly that element type, and the mapping from element types back to stored types is its inverse. A type that is not supported raises an error and never silently falls through to another type\'s code or to success.',
     ['inputs', 'configurations'], 'All stored data types, all programs that dispatch on them',
     'Tests use one or two data types; a swapped case misreads only files of that type.',
     [H + 'common/gdal.hpp', H + 'common/Array2D.hpp', 'src/gdal.cpp', 'apps/router.hpp', 'apps/', 'programs/'],
     [('type switches and reverse map', H + 'common/gdal.hpp; apps/router.hpp')],
     claim=('exhaustiveness and agreement analysis of type switches over resolved template arguments', 'Every switch on the raster data type is enumerated; each arm\'s template instantiation is compared with the element type of the case, default arms must not return normally.'))

prop('P07', 'What is written to caches, native files and messages is read back alike',
     'Raster files in the native format, evicted-tile caches and messages between parallel workers are read back field by field in the order and with the widths with which they were written, and every persisted field is restored to the place it came from. A later phase looks for a cached item under the name an earlier phase stored it under, and a message is received whole.',
     ['histories', 'inputs'], 'All save/evict/load sequences and all message exchanges',
     'Tests round-trip at most one small raster; a permuted field of equal width goes unnoticed until the field is used.',
     [H + 'common/Array2D.hpp', H + 'common/communication.hpp', 'programs/parallel_d8_accum/main.cpp', 'programs/parallel_priority_flood/main.cpp'],
     [('saveToCache/loadNative', H + 'common/Array2D.hpp'), ('serialize methods', 'programs/*/main.cpp')],
     claim=(AI + ' of writers and readers, compared transfer by transfer', 'The transfers of each writer and its reader are compared as terms (length and destination), archives by the members and parameters they take, cache and retention slots by name.'))

prop('P08', 'Failed input/output is reported, not ignored',
     'When opening, reading or writing a raster, cache or layout file fails, the operation raises an error to its caller. It never returns a raster with unread contents or reports success for cells or other contents that were not written (what only describes the file, such as setting its projection, is not included; nor are destructors, which cannot report).',
     ['fault_sequences', 'inputs'], 'Any I/O call failing at any point',
     'Tests never inject I/O failures.',
     [H + 'common/Array2D.hpp', 'src/gdal.cpp', H + 'tiled/A2Array2D.hpp', H + 'common/Layoutfile.hpp', 'apps/', 'programs/'],
     [('result checks after GDAL and stream calls', 'as listed')],
     claim=(AI + ' with every I/O operation forked into success and failure', 'Each opening, transfer, fill or stream operation is an obligation: no path on which it failed may end in a normal return of the function that owns the file, unless the failure is its result.'))

prop('P09', 'Georeferencing and metadata travel with derived rasters',
     'A raster derived from another (copy, resize-like-another, template construction, type conversion, native or tiled save and load) carries the source\'s geotransform, projection and metadata, and flips, transposes, expansions and rotations keep the element data consistent with the new dimensions. No derived raster carries another raster\'s NoData marker unless it was given it.',
     ['inputs', 'histories'], 'All raster operations, all metadata contents',
     'Most tests use rasters without georeferencing.',
     [H + 'common/Array2D.hpp', H + 'common/Array3D.hpp', H + 'methods/', H + 'flowmet/'],
     [('metadata members and their copies', H + 'common/Array2D.hpp')],
     claim=(AI + ' of raster methods with member-provenance tracking', 'For each constructor/transformer, the final value of every metadata member is compared with the source\'s member on all normal-exit paths.'))

prop('P10', 'Memory lent by a caller is never freed or reallocated',
     'A buffer that wraps memory owned by the caller (as for arrays passed from Python) is never freed by the library, and any attempt to change its size is refused with an error. Memory the library did allocate is freed exactly once. A Python array that had to be converted before being wrapped is kept alive as long as the raster that wraps it.',
     ['histories'], 'All sequences of construction, copy, move, assignment, resize and destruction',
     'Move and self-assignment sequences of wrapped buffers are not tested; double frees may be silent.',
     [H + 'common/ManagedVector.hpp', H + 'common/Array2D.hpp', H + 'common/Array3D.hpp'],
     [('ownership flag', H + 'common/ManagedVector.hpp')],
     claim=('ownership typestate over all methods of the buffer class by abstract interpretation', 'Each special member and method is interpreted from every ownership state; deletes need the owned state, pointers adopted from callers need the unowned state, moved-from objects must give up ownership.'))

prop('P11', 'Inputs that an operation only reads are left unmodified',
     'An operation whose interface gives it an input to read (an elevation model, a flow direction grid, a weights array, or a Python call not asked to work in place) leaves that input\'s contents unchanged. Only arguments documented as results or in-place targets are written.',
     ['inputs'], 'All inputs and option combinations',
     'Tests compare outputs and rarely re-check inputs.',
     [H + '', 'wrappers/pyrichdem/richdem/__init__.py', 'wrappers/pyrichdem/richdem/cli.py'],
     [('const raster parameters', 'algorithm headers'), ('in_place handling', 'wrappers/pyrichdem/richdem/__init__.py')],
     claim=('interprocedural mod analysis (C++ typed AST) and copy-before-write dataflow on the Python AST', 'For each algorithm the set of parameters it may write is computed and compared with the frozen interface table; const-removing casts are refused; in the Python layer every in-place engine call on a user object must be dominated by a copy when in_place is false.'))

prop('P12', 'Timers and progress bars are used in a valid order',
     'On every path through every operation, a timer is started before it is stopped or read and is not started again while it runs, its elapsed time is read only while stopped, and a progress indicator is started before it is advanced or stopped. Misuse would raise an error from inside an otherwise correct computation.',
     ['inputs', 'histories'], 'All control-flow paths of all operations',
     'Misuse sits on rarely taken early-return paths.',
     [H + 'common/timer.hpp', H + 'common/ProgressBar.hpp', H + ''],
     [('Timer state', H + 'common/timer.hpp'), ('ProgressBar', H + 'common/ProgressBar.hpp')],
     claim=('typestate analysis on all paths', 'Every timer and progress-bar object is tracked through start/lap/stop/update on all paths of every function using one.'))

prop('P13', 'Filling only raises terrain; breaching and carving only lower it',
     'Depression-filling and flat-raising operations never lower any data cell, and breaching operations run in pure-breach mode never raise one beyond the documented initial lift of a pit to its lowest neighbour. Every elevation an algorithm of these families stores is, on every path, provably at least (respectively at most) the elevation it replaces.',
     ['inputs'], 'All elevation models',
     'The tests compare with stored outputs for a few DEMs.',
     [H + 'depressions/Barnes2014.hpp', H + 'depressions/Zhou2016.hpp', H + 'depressions/Wei2018.hpp', H + 'depressions/Lindsay2016.hpp', 'programs/parallel_priority_flood/'],
     [('elevation stores guarded by comparison or max/min', 'as listed')],
     claim=(AI + ' in an order domain', 'Each store into the elevation raster is an obligation new>=old (fill) or new<=old (breach), discharged from the path\'s comparisons and from max/min/nextafter facts.'))

prop('P14', 'Flooding algorithms process each cell once',
     'In every priority-flood style traversal, a neighbour is queued only when its visited mark is clear, and its mark is set by the end of the step that queued it, so that each cell is expanded at most once and the traversal terminates. Seed cells are marked when they are queued or at the latest when they are taken, and seeding that walks the raster edge covers the whole edge.',
     ['inputs'], 'All elevation models',
     'A missing mark only costs time or changes results on plateaus; tests do not bound queue traffic.',
     [H + 'depressions/Barnes2014.hpp', H + 'depressions/Zhou2016.hpp', H + 'depressions/Wei2018.hpp', H + 'depressions/Lindsay2016.hpp', H + 'depressions/depression_hierarchy.hpp', H + 'flats/'],
     [('closed/visited flags', 'as listed')],
     claim=('must-pair (test-mark-push) dataflow on all paths', 'For every push in a seed or expansion loop, the path must contain an unmarked test of the same cell (expansion) and a mark of the same cell before the next iteration.'))

prop('P15', 'Flow accumulation releases each cell exactly when its donors are done',
     'In every flow-accumulation pass a cell is processed only when its count of unprocessed donors reaches zero: the count is raised once per donating neighbour in the counting phase and lowered once per delivery, using the same receiver in both phases. What a cell passes on is its accumulated value times the stored share for that receiver.',
     ['inputs'], 'All flow direction grids',
     'A mismatch shows only on particular drainage topologies.',
     [H + 'methods/flow_accumulation_generic.hpp', H + 'methods/d8_methods.hpp', H + 'methods/dinf_methods.hpp', H + 'methods/strahler.hpp', H + 'depressions/fill_spill_merge.hpp', 'programs/parallel_d8_accum/main.cpp'],
     [('dependency counters', 'as listed')],
     claim=('counting-protocol analysis: increment and decrement sites compared by symbolic receiver', 'Receiver expressions of increment sites, decrement sites and delivered values are normalised to symbolic neighbour terms and compared; releases must be guarded by count==0.'))

prop('P16', 'NoData cells stay NoData in derived rasters',
     'A derived raster (filled elevations, flow directions or proportions, accumulation, terrain attributes, masks) never assigns a data value to a cell that is NoData in the elevation or direction raster it is derived from; such cells hold the output\'s own NoData marker (or the documented no-flow value).',
     ['inputs'], 'All rasters and all placements of NoData',
     'Few test rasters contain interior NoData.',
     [H + 'depressions/', H + 'flowmet/', H + 'methods/', H + 'misc/'],
     [('isNoData guards', 'as listed')],
     claim=(AI + ' with NoData facts', 'Every store of a non-NoData value into an output raster must be dominated by a proof that the source cell is not NoData; outputs set their NoData marker before returning.'))

prop('P17', 'Cell counts and flat indices never overflow for large rasters',
     'Flat indices, cell counts and buffer sizes computed from raster dimensions are computed in a type wide enough for the product of two dimensions, and are not narrowed before use. Rasters with more than 2^31 cells are therefore addressed correctly.',
     ['inputs'], 'All raster dimensions up to the documented index type',
     'No test allocates rasters of that size.',
     [H + 'common/Array2D.hpp', H + 'common/Array3D.hpp', H + 'methods/', H + 'depressions/', 'programs/'],
     [('i_t / xy_t', H + 'common/Array2D.hpp')],
     claim=('type-based width analysis of dimension products', 'Every multiplication of two raster-dimension-derived terms, and every conversion of a flat index or cell count, is enumerated with its static types.'))

prop('P18', 'Priority queues pop the lowest cell first, ties deterministically',
     'Every priority queue of grid cells returns a cell of minimal elevation; where the queue also promises first-in-first-out order among equal elevations, ties are broken by insertion order. The comparisons used are consistent strict weak orders, so results do not depend on the container implementation.',
     ['inputs', 'histories'], 'All queue contents and push orders',
     'Tests cannot enumerate comparator inputs, and NaN-free ties in different orders go unnoticed.',
     [H + 'common/grid_cell.hpp', H + 'depressions/Barnes2014.hpp', H + 'depressions/depression_hierarchy.hpp'],
     [('comparison operators and insertion counter', H + 'common/grid_cell.hpp')],
     claim=('finite decision of each comparator over all orderings of its compared fields', 'Each comparator is interpreted abstractly over the 3^k sign patterns of its field comparisons; the resulting relation must be a strict weak order with elevation as the primary key and the heap must be a min-heap.'))

prop('P19', 'Objects never expose uninitialised members',
     'Every constructor of every public type leaves each arithmetic, enumeration, boolean and pointer member with a defined value before the member is first read. Behaviour therefore never depends on leftover memory contents.',
     ['inputs', 'histories'], 'All constructors and all uses',
     'Uninitialised reads usually happen to work in tests.',
     [H + 'common/', H + 'tiled/', H + 'depressions/', 'programs/'],
     [('constructors and default member initialisers', 'as listed')],
     claim=('definite-initialisation analysis of constructors', 'For each constructor (including implicit ones) and each scalar member, an initialiser or assignment must occur on every path, or every read must be dominated by a write in the type\'s own methods.'))

prop('P20', 'Named methods dispatch to the algorithm of that name',
     'For every algorithm name, topology and option a user can choose in the Python and command-line interfaces, the engine function executed implements exactly that method with that topology and those options. A name that is not offered is rejected with an error.',
     ['inputs', 'configurations'], 'All method names, topologies, in-place flags, exponents and options',
     'Tests call few methods through the Python layer and none through most applications.',
     ['wrappers/pyrichdem/richdem/__init__.py', 'wrappers/pyrichdem/richdem/cli.py', 'wrappers/pyrichdem/src/pywrapper.hpp', 'apps/rd_flow_accumulation.cpp', 'apps/rd_terrain_property.cpp', H + 'methods/flow_accumulation.hpp', H + 'flowmet/'],
     [('method tables', 'wrappers/pyrichdem/richdem/__init__.py'), ('bindings', 'wrappers/pyrichdem/src/pywrapper.hpp')],
     claim=('binding and dispatch-table agreement over the Python AST and the typed C++ AST', 'Every (name -> engine function) pair is resolved through the binding table to the C++ function and compared with the method identity encoded once in the checker.'))

prop('P21', 'Random terrain is a function of its seed only',
     'Generated terrain and random flow routing depend only on the seed (and the thread layout) and the arguments: each thread\'s generator is seeded from the user seed with a distinct stream, and no other entropy source is consulted unless the user asks for it.',
     ['schedules', 'histories'], 'All seeds and thread counts',
     'One thread, one seed in tests.',
     ['src/random.cpp', 'src/perlin.cpp', 'src/terrain_generation/'],
     [('thread-private generators', 'src/random.cpp')],
     claim=('effect analysis of entropy sources and generator state, with ' + AI + ' of the seeding', 'Every use of an entropy source, seeding, generator access and retained distribution state is enumerated through resolved callees; seed terms are evaluated per thread.'))

prop('P22', 'Modified tiles are written back before they are evicted',
     'When a tile of a tiled raster is evicted from memory, its modified contents are written to its cache first, and a later access reloads them from there. A tile never loaded or never modified is not overwritten, and an in-memory read-only tiled raster refuses modification.',
     ['histories'], 'All access sequences and cache sizes',
     'Tests do not use tiled rasters with eviction.',
     [H + 'tiled/A2Array2D.hpp', H + 'tiled/lru.hpp', H + 'common/Array2D.hpp'],
     [('tile LRU and loaded/created flags', H + 'tiled/A2Array2D.hpp')],
     claim=('typestate / must-precede analysis of tile life-cycle calls', 'Every path that clears a tile must first pass the write-back of the same tile under the documented condition; every accessor must pass the load step first and mark modification.'))

prop('P23', 'Parallel workers answer every job and tags match',
     'In the distributed programs every job message the coordinator sends is received by a worker branch expecting that tag and payload, every job yields exactly one reply with the tag and payload type the coordinator waits for, and every tile receives a second-phase job whose inputs were computed in the first phase.',
     ['schedules', 'histories'], 'All worker counts, tile counts and message orders',
     'The distributed programs are not run by the tests.',
     ['programs/parallel_d8_accum/main.cpp', 'programs/parallel_priority_flood/main.cpp', H + 'common/communication.hpp'],
     [('tags and Comm calls', 'as listed')],
     claim=('message-protocol agreement over resolved communication calls', 'Send and receive sites are enumerated with tag and payload types; worker branches must send on all normal paths.'))

prop('P24', 'Command-line programs use only arguments that were given',
     'Every command-line program reads an argument only after having established that it was given, and otherwise prints its usage and ends with a failure status. Each documented positional argument is used for the purpose its usage line gives.',
     ['inputs'], 'All argument vectors',
     'Applications are barely exercised by tests.',
     ['apps/', 'programs/'],
     [('argc checks', 'apps/*.cpp')],
     claim=(AI + ' with argc/argv bounds', 'Every argv access is an obligation index<argc on every path.'))

prop('P25', 'Flow proportions are well formed for every cell',
     'Every flow-metric marks each cell consistently: a cell has a flow marker of no-flow, has-flow or NoData, the marker has-flow is set exactly when at least one neighbour share is stored, shares are stored only for neighbours inside the raster that hold data, the stored shares of a cell that has flow add up to one, and border and flat cells get the documented no-flow marker.',
     ['inputs'], 'All elevation models, all metrics and parameters',
     'Flow metrics are barely tested.',
     [H + 'flowmet/', H + 'common/Array3D.hpp'],
     [('marker at slot 0 of each cell', H + 'flowmet/*.hpp')],
     claim=(AI + ' of each metric\'s per-cell body', 'On every path, the set of share slots stored, the guard facts on their neighbours and the marker value are compared.'))

prop('P26', 'Depression hierarchy links are mutual',
     'In a depression hierarchy, whenever a depression records a parent, child or ocean link, the linked depression records the matching link back, and a merged depression\'s children are the two depressions that met at the recorded outlet. Each leaf and each merged depression receives the next unused label.',
     ['inputs'], 'All elevation models',
     'Tests compare the hierarchy on a few DEMs.',
     [H + 'depressions/depression_hierarchy.hpp'],
     [('parent/lchild/rchild/odep/ocean_linked updates', H + 'depressions/depression_hierarchy.hpp')],
     claim=('paired-update analysis on all paths', 'Each store to a link field must be matched by the reciprocal store on the same path with the same operands.'))

prop('P27', 'Terrain attributes depend only on elevation differences and units cancel',
     'Every terrain attribute is unchanged when a constant is added to all elevations, uses the cell sizes of the matching axes, and applies the vertical scale factor to every elevation exactly once. On any tilted plane the slope is the length of the gradient and the aspect the direction of steepest descent, whatever the cell sizes; curvatures are per unit length (their formulas assume square cells).',
     ['inputs'], 'All elevations, cell sizes and vertical scale factors',
     'Terrain attributes are compared with stored outputs at unit scale only, if at all.',
     [H + 'methods/terrain_attributes.hpp'],
     [('3x3 stencil formulas', H + 'methods/terrain_attributes.hpp')],
     claim=(AI + ' of the formulas to exact rational functions of the window', 'Each attribute is interpreted to a term over the nine elevations, cell sizes and scale factor; invariance, homogeneity and agreement with the analytic value on tilted planes and quadratics are decided exactly.'))

# ------------------------------------------------- not applicable
prop('P40', 'A filled elevation model has no depressions and the smallest such surface',
     'After filling, every data cell has a non-ascending path to the raster edge or NoData, and no cell is higher than this requires; all filling algorithms agree on the result.',
     ['inputs'], 'All elevation models', 'Tests compare a few DEMs.',
     [H + 'depressions/'], [('priority flood', H + 'depressions/')],
     na='Equality of computed surfaces over unbounded rasters quantifies over runtime elevations and queue orders; no structural rule implies it. Its decidable parts are claimed as P02, P13, P14 and P18.')
prop('P41', 'Flow accumulation conserves mass',
     'The accumulated flow leaving the raster plus the flow ending in pits equals the total weight put in.',
     ['inputs'], 'All flow grids', 'Tests compare a few outputs.',
     [H + 'methods/flow_accumulation_generic.hpp'], [('delivery loop', H + 'methods/flow_accumulation_generic.hpp')],
     na='A sum over runtime floating-point values of an unbounded raster; only the per-cell protocol (P15, P25) has a static form.')
prop('P42', 'Water volumes are conserved by fill-spill-merge',
     'Surface water placed on the terrain equals water stored in depressions plus water that reached the ocean.',
     ['inputs'], 'All terrains and rainfalls', 'Tests sample random terrains with a tolerance.',
     [H + 'depressions/fill_spill_merge.hpp'], [('MoveWaterInDepHier', H + 'depressions/fill_spill_merge.hpp')],
     na='Numerical conservation across a recursive traversal of a runtime-built tree; no sound static bound in reach.')
prop('P43', 'Tiled and distributed runs equal the serial result',
     'The distributed flow accumulation and flooding programs produce, for any tiling and worker count, the raster the serial algorithm produces.',
     ['inputs', 'schedules', 'configurations'], 'All tilings and worker counts', 'Not run by the tests.',
     ['programs/'], [('edge graph', 'programs/parallel_priority_flood/main.cpp')],
     na='End-to-end equality of outputs is a relational property over runtime values; its message and cache clauses are claimed as P07 and P23.')
prop('P44', 'Flat resolution gives every drainable flat cell a path out',
     'After flat resolution every flat cell with an outlet has a flow direction and following directions never cycles.',
     ['inputs'], 'All elevation models', 'Tests compare a few DEMs.',
     [H + 'flats/'], [('gradient superposition', H + 'flats/Barnes2014.hpp')],
     na='Acyclicity depends on breadth-first levels computed at run time; not implied by any structural rule found.')
