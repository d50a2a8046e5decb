# The one place that describes every property: gen.py writes properties.jsonl and MANIFEST.json from it.
# P(id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], technique, level note)
PROPS = []
NA = []


def P(*a):
    PROPS.append(dict(zip(('id', 'title', 'statement', 'over', 'qtext', 'why', 'files', 'mech', 'technique', 'note'), a)))


def N(*a):
    NA.append(dict(zip(('id', 'title', 'statement', 'over', 'qtext', 'why', 'files', 'mech', 'reason'), a)))


P('C01', 'No exception leaves the native interface; failures reach the error callback',
  'Every exported native function that is given an error callback reports any failure (missing or unreadable file, malformed style, data or elevation, unsupported format) through that callback and then returns normally. '
  'No C++ exception leaves such a function, no handler on the way swallows a failure without reporting or rethrowing it, and nothing declared unable to throw lets an exception out.',
  ['inputs', 'fault_sequences'], 'all inputs and failures of every exported function that takes an error callback',
  'Tests call the C++ classes mostly without the exported layer and provoke only a handful of failures; the quantifier is over every throwing operation in the call tree.',
  ['core/shared/ExportLib.cpp', 'core/shared/Application.hpp', 'core/shared/Configuration.hpp', 'core/shared/Search.hpp'],
  [('safeExecute wrapper', 'core/shared/Common.hpp'), ('exported functions', 'core/shared/ExportLib.cpp')],
  'interprocedural exception-escape analysis over the resolved call graph', 'Sound for the listed throwing operations; allocation failure and exceptions of the caller\'s own callbacks are outside.')

P('C02', 'State shared by concurrent requests is only touched under its one lock',
  'Requests of the native interface (loading tiles, searching, reading elevation, adding data, registering stylesheets) may run on several threads at once. '
  'Any data owned by the long-lived application objects that such a request can modify is read and modified only while holding one and the same mutex, held for the whole access, including references and iterators obtained from it. '
  'Requests modify no other process-wide variables and call no library function that keeps hidden global state.',
  ['schedules'], 'all interleavings of concurrent requests',
  'The test suite is single threaded: no test has two requests in flight.',
  ['core/src/index/StringTable.cpp', 'core/src/index/ElementStore.cpp', 'core/src/index/InMemoryElementStore.cpp', 'core/src/index/PersistentElementStore.cpp', 'core/src/index/BitmapIndex.cpp', 'core/src/mapcss/StyleProvider.cpp', 'core/src/builders/QuadKeyBuilder.cpp', 'core/src/builders/MeshCache.cpp', 'core/src/heightmap/GridElevationProvider.hpp', 'core/src/heightmap/SrtmElevationProvider.hpp', 'core/shared/Configuration.hpp'],
  [('locks of the shared classes', 'core/src/**'), ('ownership from the application object', 'core/shared/Application.hpp')],
  'lockset analysis over ownership-shared state and interprocedural effects', 'Connect, disconnect, store and cache registration are documented set-up calls and excluded.')

P('C03', 'Bundled library code with process-wide state never runs on two threads',
  'Bundled third-party code which keeps process-wide mutable state (the triangulation library above all) is only ever entered while a single process-wide mutex is held, so no two threads are ever inside it together.',
  ['schedules'], 'all interleavings of mesh-building threads', 'Tests build meshes on one thread only.',
  ['core/src/builders/MeshBuilder.cpp', 'core/lib'],
  [('triangulation lock', 'core/src/builders/MeshBuilder.cpp')],
  'global-state effect analysis of the bundled libraries (LLVM IR) with lock dominance at their call sites', 'State written idempotently (endianness flag) is exempted by value analysis of its stores.')

P('C04', 'Cancelled requests stop: the token of the caller is polled between deliveries',
  'Every long-running request (loading a tile, importing data, searching) consults the cancellation token given by its own caller: each loop over stores, stored elements, cached meshes, parsed elements or search results that delivers them to a visitor or callback checks it between deliveries, and the token is passed on unchanged to everything the request delegates to. '
  'No part of a request substitutes a token of its own that can never be cancelled, or keeps a copy that would miss a later cancellation. An import that was cancelled erases what it had stored.',
  ['schedules', 'histories'], 'all points in time at which the caller cancels, all data sets',
  'Tests cancel before the start at most; the quantifier is over when cancellation happens and which loop is running.',
  ['core/src/CancellationToken.hpp', 'core/src/index/GeoStore.cpp', 'core/src/index/PersistentElementStore.cpp', 'core/src/index/InMemoryElementStore.cpp', 'core/src/builders/QuadKeyBuilder.cpp', 'core/shared/Search.hpp', 'core/src/formats'],
  [('token checks in loops', 'core/src/index/*.cpp'), ('token parameters', 'core/shared/*.hpp')],
  'token-flow and loop-polling analysis over the call graph', 'Decides where the token is consulted, not how quickly a check follows.')

P('C05', 'A cached tile is marked complete only after its build; sessions always end',
  'A mesh cache file is marked complete only when the build of that tile ran to its end without failure or cancellation. '
  'Every caching session that is begun for a tile is ended on every way out of the request (success, cancellation, exception), by the request that began it, so that a later request neither uses a half-written tile nor finds the tile blocked.',
  ['fault_sequences', 'crash_points', 'histories'], 'all points at which a build may fail, be cancelled or throw; all later requests',
  'Tests only cover completed builds; the quantifier is over the failing point.',
  ['core/src/builders/MeshCache.cpp', 'core/src/builders/MeshCache.hpp', 'core/src/builders/CacheBuilder.hpp', 'core/src/builders/QuadKeyBuilder.cpp'],
  [('wrap/unwrap sessions', 'core/src/builders/MeshCache.cpp'), ('session owner', 'core/src/builders/CacheBuilder.hpp')],
  'typestate and must-pass-through analysis on control-flow graphs with exceptional edges', 'A process crash is covered by the marker being written last.')

P('C06', 'Different tiles, styles, detail levels and builders never share a cache file',
  'The name under which a built tile is cached depends on everything that selects its content: level of detail, both tile coordinates, the stylesheet and the builder. '
  'The stylesheet part takes every group of rules (nodes, ways, areas, relations, canvas) and every condition and declaration of a rule into account.',
  ['configurations', 'histories'], 'all pairs of requests that differ in tile, level, style or builder',
  'Tests use one style and tile per cache directory.',
  ['core/src/builders/MeshCache.cpp', 'core/src/mapcss/StyleProvider.cpp', 'core/src/index/PersistentElementStore.cpp', 'core/src/utils/CoreUtils.hpp'],
  [('cache file name', 'core/src/builders/MeshCache.cpp'), ('style tag', 'core/src/mapcss/StyleProvider.cpp')],
  'dependence (data-flow slicing) from selecting inputs to file names', 'Collisions of the 64-bit style hash itself are not excluded.')

P('C07', 'What is written to disk is read back with the same layout',
  'Each on-disk record (element data, element index, mesh cache entries, bitmap index, string index) is read back as the same sequence of fields, with the same width, order and repetition, in which it was written, for every kind of element and mesh. '
  'A count written before a sequence is the number of entries that follow, and the reader consumes exactly as many.',
  ['inputs', 'histories'], 'all elements, meshes and indexes ever written',
  'Round-trip tests sample a few elements with few tags; a field read with another width or order shows only for particular values.',
  ['core/src/index/ElementStream.cpp', 'core/src/index/MeshStream.cpp', 'core/src/index/BitmapStream.cpp', 'core/src/index/StringTable.cpp', 'core/src/index/PersistentElementStore.cpp', 'core/src/builders/MeshCache.cpp'],
  [('writers and readers', 'core/src/index/*Stream.cpp')],
  'extraction and comparison of the I/O grammars of writer and reader', 'Decides layout agreement, not value equality.')

P('C08', 'Index entries point at complete data: data first, offsets taken at its end',
  'A size or offset recorded for element data is taken with the file position at the end of the data, and an index entry is written only after the element data it refers to has been written, so an interrupted import never leaves an entry that points past its data.',
  ['crash_points', 'histories'], 'all interruptions of an import and all earlier uses of the same file',
  'Tests never interrupt an import nor interleave reading and writing of one tile.',
  ['core/src/index/PersistentElementStore.cpp', 'core/src/index/StringTable.cpp', 'core/src/index/BitmapIndex.cpp'],
  [('store path', 'core/src/index/PersistentElementStore.cpp')],
  'typestate of stream position and write-ordering analysis', 'The operating system\'s own reordering of flushed writes is outside.')

P('C09', 'Locks are never taken in a cycle nor held while calling the application back',
  'No thread can reach an acquisition of a mutex it already holds, the order in which mutexes are acquired while holding others has no cycle, and a mutex locked by hand is released on every way out. '
  'No callback supplied by the application is invoked while a mutex of the library is held.',
  ['schedules'], 'all interleavings of requests, all callbacks', 'Tests are single threaded and their callbacks do not call back.',
  ['core/src/index', 'core/src/builders', 'core/src/mapcss/StyleProvider.cpp', 'core/src/heightmap', 'core/shared'],
  [('all lock acquisitions', 'core/src/**')],
  'interprocedural lock-order graph with class-set call resolution', 'Recursive acquisition through distinct objects of one class counts as the same lock.')

P('C10', 'Elements handed to styling and stores always carry tags in sorted order',
  'Tags of an element are looked up by binary search. Every way an element enters the system (each import format, application-supplied elements, elements reassembled from relations) orders its tags by key before the element is stored, styled or searched.',
  ['inputs'], 'all elements from all sources, tags in any order',
  'Test data mostly has one or two tags in already sorted order.',
  ['core/src/utils/ElementUtils.hpp', 'core/src/utils/GeometryUtils.hpp', 'core/shared/Storage.hpp', 'core/src/formats', 'core/src/index/ElementStream.cpp'],
  [('tag construction', 'core/src/utils/ElementUtils.hpp'), ('binary search over tags', 'core/src/mapcss/StyleProvider.cpp')],
  'provenance analysis: every assignment of element tags comes from a sorted source', 'Sortedness by the key identifier that the search compares.')

P('C11', 'A lookup that may fail is checked before its result is used',
  'Whenever the native library looks something up by a key that comes from data, styles or requests (element stores, elevation data, OSM members, style values, roof and facade types, textures), a missing entry is detected and reported or skipped. '
  'The result of an unsuccessful lookup is never dereferenced.',
  ['inputs', 'configurations'], 'all keys absent from the respective table',
  'Tests look up what exists; the quantifier is over absent keys.',
  ['core/src/index', 'core/src/formats/osm', 'core/src/builders', 'core/src/heightmap', 'core/src/mapcss', 'core/shared'],
  [('associative lookups', 'core/src/**')],
  'flow-sensitive checked-before-use analysis of lookup results', 'Lookups whose presence follows from an insertion on every path in the same function are discharged by the same flow analysis; others are tabled with a reason.')

P('C12', 'Empty input collections are never read from',
  'First, last or neighbouring entries of a collection that can be empty for some input (coordinates of an element, points of a polygon, contours, style text, recorded drawing states) are only accessed after its size has been established, and no size is decremented below zero by unsigned arithmetic. '
  'Degenerate elements are skipped or reported instead.',
  ['inputs'], 'all elements, styles and rules with empty or one-entry collections',
  'Test elements are well formed.',
  ['core/src/builders', 'core/src/formats', 'core/src/utils', 'core/src/mapcss', 'core/src/lsys', 'core/shared/Storage.hpp'],
  [('front, back, pop, constant index', 'core/src/**')],
  'flow-sensitive non-emptiness analysis', 'Indexing by loop variables bounded by the size is trusted; arithmetic on indices is not decided.')

P('C13', 'Lengths and indices found in imported binary data are validated before use',
  'A length, count, offset or table index read from an imported binary file (PBF blocks, shape records) is compared with the size of what it indexes before it is used to size, slice or index memory. '
  'Fields that have to have the same number of entries are checked to have it before one is read by the index of another. Malformed files are reported as an error, not read out of bounds.',
  ['inputs'], 'all byte sequences offered as import files', 'Tests import well-formed files only.',
  ['core/src/formats/osm/pbf/OsmPbfParser.hpp', 'core/src/formats/shape/ShapeParser.hpp'],
  [('blob and block decoding', 'core/src/formats/osm/pbf/OsmPbfParser.hpp'), ('record arrays', 'core/src/formats/shape/ShapeParser.hpp')],
  'taint analysis from decoded integers to memory operations, discharged by difference constraints from path conditions', 'Decoding inside the generated protobuf code and the shape library is trusted.')

P('C14', 'Operating-system and library resources are released on every way out',
  'Every native handle the library acquires (shape and attribute file handles and records, decompression state, triangulation memory, files) is released exactly once on every way out of the acquiring operation, including exceptions thrown by visitors, parsing errors and early returns.',
  ['fault_sequences', 'inputs'], 'all failing points between acquisition and release', 'Tests exercise only the successful path; a leak or double release is not an assertion.',
  ['core/src/formats/shape/ShapeParser.hpp', 'core/src/formats/osm/pbf/OsmPbfParser.hpp', 'core/src/builders/MeshBuilder.cpp'],
  [('acquire/release pairs', 'core/src/formats/**')],
  'resource typestate on control-flow graphs with exceptional edges', 'Pairs of acquire and release functions are a frozen table.')

P('C15', 'Relations that contain each other never make an import run forever',
  'Resolving an imported relation follows references between relations. For any reference graph, including relations that are members of themselves or of each other, resolution visits each relation at most once per chain and terminates.',
  ['inputs'], 'all reference graphs between imported relations', 'Test data contains no cyclic relations.',
  ['core/src/formats/osm/OsmDataVisitor.cpp', 'core/src/formats/osm/RelationProcessor.hpp', 'core/src/entities/Relation.hpp', 'core/src/index'],
  [('relation resolution', 'core/src/formats/osm/OsmDataVisitor.cpp')],
  'recursion analysis: every recursive cycle driven by input references passes a visited guard', 'Recursion over already assembled (owned) element trees terminates by construction.')

P('C16', 'Mesh arrays stay in lockstep and triangles refer to existing vertices',
  'Everything that appends to a mesh keeps its arrays consistent: coordinates come in threes with one colour and one pair of texture coordinates each, indices come in threes, the index of a new triangle is computed from the number of vertices present when it is added and refers to one of the vertices added with it. '
  'A mesh copied into another one is copied completely, with its indices and texture ranges moved accordingly. Texture records cover all geometry of a mesh when it is delivered, and each array is delivered with its own length.',
  ['inputs'], 'all elements and styles that reach a mesh builder', 'Tests check sizes for a few shapes only.',
  ['core/src/builders/MeshBuilder.cpp', 'core/src/math/Mesh.hpp', 'core/src/utils/MeshUtils.hpp', 'core/src/builders', 'core/src/index/MeshStream.cpp'],
  [('mesh growth', 'core/src/builders/MeshBuilder.cpp')],
  'symbolic counting of appends per control-flow path', 'Counts appends; does not decide the geometric values.')

P('C17', 'A pooled mesh is returned only when nothing uses it any more, and starts empty',
  'A mesh taken from the shared pool is used by one builder at a time: it is given back at most once, never used after it was given back, and handed out again only after all of its arrays have been cleared.',
  ['histories', 'schedules'], 'all sequences of building and pooling', 'A stale or shared mesh needs several builds in sequence with particular sizes.',
  ['core/src/builders/MeshPool.hpp', 'core/src/builders', 'core/src/math/Mesh.hpp'],
  [('mesh pool', 'core/src/builders/MeshPool.hpp')],
  'linear-resource typestate and field-coverage of the reset operation', '')

P('C18', 'A polygon clipping run never sees contours of an earlier one',
  'Every use of a reusable polygon clipper starts from an empty one: between two executions the subject and clip paths are cleared, on every path, so results for one element or layer never contain geometry of another.',
  ['histories', 'inputs'], 'all sequences of elements and layers processed by one clipper', 'Tests clip one element at a time.',
  ['core/src/index/ElementGeometryClipper.cpp', 'core/src/builders/terrain', 'core/src/utils'],
  [('clipper reuse', 'core/src/index/ElementGeometryClipper.cpp')],
  'typestate of clipper objects', '')

P('C19', 'Callbacks and locals of a request are never used after the request returned',
  'The native library keeps no callback, pointer or reference supplied for one request beyond that request: nothing of that kind is stored in objects or globals that outlive the call, and no function object which refers to locals of a function is stored or returned beyond that function. (A pointer kept only to be compared with others is not a use.)',
  ['histories'], 'all sequences of requests; lifetimes of the callers\' delegates', 'Tests keep their callbacks alive for the whole test.',
  ['core/shared', 'core/src'],
  [('callback parameters', 'core/shared/*.hpp')],
  'escape analysis of callback parameters and by-reference captures', 'Callbacks given to connect are kept until disconnect by contract.')

P('C20', 'Managed and native sides agree on every function they share',
  'Every native function imported by the managed library exists in the native library with the same number of parameters and compatible types, widths, passing modes and return type, uses the same calling convention, and every delegate passed matches the native function type that will be invoked, including how booleans and strings are marshalled; array lengths travel with the array they belong to, and values that mean the same thing on both sides (tile coordinates, levels of detail, latitudes and longitudes, search terms, the arrays of a mesh) are passed in the same place.',
  ['inputs', 'configurations'], 'all calls across the managed/native boundary', 'The C++ tests never run the managed side; a mismatch corrupts the stack only at run time on some platforms.',
  ['unity/library/UtyMap.Unity/Data/MapDataLibrary.cs', 'core/shared/ExportLib.cpp'],
  [('imports', 'unity/library/UtyMap.Unity/Data/MapDataLibrary.cs'), ('exports', 'core/shared/ExportLib.cpp')],
  'cross-language signature comparison of compiled metadata and resolved C++ declarations', '')

P('C21', 'Pins, native memory, locks and files taken by managed code are released',
  'Every handle the managed library pins or allocates for a native call, every lock it takes and every file or stream it opens is released exactly once on every way out, also when the native call, a callback or the work done in between fails; a pinned handle is never released before the native call using it has returned, nor used afterwards.',
  ['fault_sequences'], 'all failing points of managed requests', 'No managed tests run here.',
  ['unity/library/UtyMap.Unity/Data/MapDataLibrary.cs', 'unity/library/UtyMap.Unity/CancellationToken.cs'],
  [('pinned token', 'unity/library/UtyMap.Unity/CancellationToken.cs')],
  'typestate over compiled IL with exception regions', '')

P('C22', 'Managed state shared between threads is only accessed in a thread-safe way',
  'A collection of the managed library which is static or belongs to an object shared by components (services, providers, observables, tiles given to worker threads) is never changed while another thread may use it: it is accessed under one common lock, taken for writing where it is changed, or it is never changed but replaced by a changed copy, where replacements exclude each other. A collection changed under a lock somewhere is never accessed without that lock, also not through an enumerator handed out.',
  ['schedules'], 'all interleavings of tile loading threads', 'No managed tests run here.',
  ['unity/library/UtyMap.Unity/Data'],
  [('data providers', 'unity/library/UtyMap.Unity/Data')],
  'lockset analysis over compiled IL', '')

P('C23', 'Text exchanged with files and servers does not depend on the user\'s locale',
  'Numbers that the managed library writes into file names, URLs or text consumed by other programs, and numbers it parses from such text, are formatted and parsed independently of the user\'s culture.',
  ['configurations'], 'all cultures of the user\'s system', 'Tests run in one culture.',
  ['unity/library/UtyMap.Unity'],
  [('formatting and parsing', 'unity/library/UtyMap.Unity')],
  'call-site analysis of culture-sensitive overloads with their data destinations', '')

P('C24', 'A downloaded data file becomes visible only when it is complete',
  'When the managed library fetches map or elevation data, the file under its final name is announced or reused only after all of its bytes have been written; a failed or interrupted transfer never leaves a partial file that a later request takes for complete.',
  ['fault_sequences', 'crash_points'], 'all failures during a transfer', 'No managed tests run here.',
  ['unity/library/UtyMap.Unity/Data/Providers'],
  [('remote providers', 'unity/library/UtyMap.Unity/Data/Providers')],
  'ordering analysis over compiled IL', '')

P('C25', 'Every requested tile is reported exactly once to the observers of tiles',
  'Each tile request leads to exactly one notification on every normal way out of the data providers and of the data store: when its data is stored already, when its data file is present, after it is downloaded, after its data is imported and after an import which failed; it is not reported twice.',
  ['fault_sequences', 'histories'], 'all outcomes of importing and loading', 'No managed tests run here.',
  ['unity/library/UtyMap.Unity/Data/MapDataStore.cs'],
  [('store', 'unity/library/UtyMap.Unity/Data/MapDataStore.cs')],
  'must-pass-through analysis over compiled IL', '')

P('C26', 'Equality, ordering and hashing of keys agree with each other',
  'For every type used as key of an ordered or hashed container or in sorting, the ordering is a strict weak order which distinguishes exactly the fields that identify the key, equality compares the same fields on both sides, and equal keys have equal hashes.',
  ['inputs'], 'all pairs and triples of keys', 'Tests use a few keys; a broken order shows only for particular combinations.',
  ['core/src/QuadKey.hpp', 'core/src/GeoCoordinate.hpp', 'core/src/LodRange.hpp', 'core/src/BoundingBox.hpp', 'core/src/heightmap', 'core/src/mapcss', 'core/src/utils'],
  [('comparators, equality and hash functions', 'core/src/**')],
  'abstract evaluation of comparators over all orderings of their fields', 'Comparators are evaluated over the finite set of orderings of the compared fields; floating-point NaN is excluded.')

P('C27', 'Every operator, symbol and name of the style languages has its own effect',
  'Whatever the style, evaluation and drawing-rule grammars accept is interpreted. Each comparison operator of a condition (=, !=, <, >, none) is decided by that comparison between the value of the tag and the value of the condition; each selector name is handled and not refused; each arithmetic operator of eval() is computed as written, or refused with an error for strings; each drawing symbol performs the command of that symbol, every command changes the turtle, opposite commands have opposite effects, and restoring a state restores everything derived from it; rules with the same key are all kept; the names of roofs, facades, extras and words select different operations which do something; compass words stand for their angles, hexadecimal digits for their values; a file is read by the parser of its format; switches over the kinds defined by the library treat every kind.',
  ['programs', 'inputs'], 'all stylesheets and rule systems the grammars accept', 'Tests cover some operators and symbols only; a missing or swapped case shows only for the style that uses it.',
  ['core/src/mapcss', 'core/src/lsys', 'core/src/builders', 'core/src/index'],
  [('grammars and interpreters', 'core/src/mapcss/*.cpp'), ('turtle', 'core/src/lsys/*.cpp'), ('tables of builders', 'core/src/builders/buildings/BuildingBuilder.cpp')],
  'exhaustiveness and meaning of interpreters against the alphabets extracted from the grammars', '')

P('C28', 'Each kind of element is handled as that kind by every part of the library',
  'Nodes, ways, areas and relations keep their kind through import, storage, filtering, clipping, styling and export: each per-kind operation delegates to the operation of the same kind, what is written as one kind is read back as that kind, the style rules of a kind are those of its selector, closed shapes become areas and open ones ways, and no kind is forgotten. What clipping leaves of an element carries the id and tags of the original.',
  ['inputs'], 'all kinds of elements through all parts', 'Tests exercise each visitor with the kinds its data happens to have.',
  ['core/src/entities', 'core/src/index', 'core/src/builders', 'core/src/mapcss', 'core/shared'],
  [('element visitors', 'core/src/**')],
  'kind-consistency analysis of visitor implementations', '')

P('C29', 'Nothing is read before it was given a value',
  'Every constructor gives every number, flag, enumeration value and pointer of its object a value on every way to its end. A local variable that is declared without a value, and each such member of a local object whose construction leaves it without one (parsed elements, members of relations, conditions of a style), is assigned on every way before it is read, returned, copied, stored or handed to another part of the library that uses it.',
  ['inputs', 'histories'], 'all ways through every function, including unusual branches of parsers', 'Memory which was never written often happens to be zero in a test run, and a test takes the usual branch.',
  ['core/src', 'core/shared'],
  [('constructors', 'core/src/builders/MeshBuilder.hpp'), ('objects filled in piece by piece', 'core/src/formats/shape/ShapeDataVisitor.hpp')],
  'definite-assignment dataflow per member path, with constructor, method and parameter summaries', 'Buffers allocated for the bundled C triangulation library are not tracked; an object whose address is stored is assumed to be given its values by whoever has the address.')

P('C30', 'Data is never taken from a read that failed',
  'When a file ends early or cannot be opened, the library reports an error or treats the data as absent. A value which a read supplies is used, and data is handed to callbacks and visitors, only after that read is known to have succeeded; the whole content of a file, or a position in it, is taken only from a stream known to be open.',
  ['inputs', 'crash_points'], 'all truncated, empty or missing files', 'Tests read complete files.',
  ['core/src/index', 'core/src/builders/MeshCache.cpp', 'core/src/heightmap', 'core/src/formats'],
  [('stream reads', 'core/src/index/*.cpp')],
  'definite-initialisation and checked-read analysis', 'Wrong but complete data is not detected.')

P('C31', 'Integer division and stepping never use a zero that input can produce',
  'A divisor, modulus or loop step which depends on input, style or request values is checked against zero before an integer division, a quotient which is turned into an integer, or a stepping loop uses it.',
  ['inputs', 'configurations'], 'all style values and requests', 'Tests use sensible styles.',
  ['core/src', 'core/shared'],
  [('integer divisions', 'core/src/**')],
  'guarded-divisor analysis', 'Floating point division is defined and excluded unless it drives a loop step.')

P('C32', 'Bounded caches keep their index and their recency list in step',
  'A bounded cache never holds an index entry without its list entry or the reverse, on every path of inserting, touching, evicting and clearing; eviction removes the least recently used entry and the entry just inserted is kept.',
  ['histories'], 'all sequences of cache operations', 'Tests perform short sequences.',
  ['core/src/utils/LruCache.hpp'],
  [('LRU cache', 'core/src/utils/LruCache.hpp')],
  'paired-update analysis on control-flow paths', '')

P('C33', 'Moved-from values are not used again',
  'After a value was moved to another owner it is not read again before it is assigned anew, on every path.',
  ['inputs'], 'all paths', 'A moved-from object often still looks valid in a test.',
  ['core/src', 'core/shared'], [('std::move', 'core/src/**')], 'flow-sensitive use-after-move analysis', '')

P('C34', 'String identifiers are stable and unique',
  'A string gets one identifier, the same string always gets the same one, also after restarting with the same data directory, and different strings never share one. An identifier is found only by comparing the whole stored text; a new one is the number of strings stored before, and is published (lookup map, list of offsets, count) exactly once, under the lock under which the string was looked up, and only after its text and index entry were written and flushed successfully; '
  'texts are appended at the end of the file, nothing is ever removed or truncated, the index is read back in the layout in which it is written, and the hash depends on the text alone.',
  ['schedules', 'crash_points', 'histories'], 'all strings, restarts, write failures and interleavings', 'Tests use one process run, one thread and few strings.',
  ['core/src/index/StringTable.cpp'], [('string table', 'core/src/index/StringTable.cpp')],
  'event sequences on every path with symbolic counting, lock regions', 'Element tags refer to strings by these identifiers, so stored maps depend on it.')

P('C35', 'Memory handed to callbacks stays valid until they return',
  'Pointers and references passed to callbacks and visitors refer to memory that is neither freed nor reallocated before the callback returns and before its last use by the library.',
  ['inputs'], 'all elements and meshes delivered', 'Dangling memory often still holds the old value in a test.',
  ['core/shared', 'core/src'], [('exported element and mesh arrays', 'core/shared/*.hpp')],
  'lifetime analysis of pointers into containers and temporaries', '')

P('C36', 'Boxes and rectangles contain, intersect and grow as they say',
  'For every position of the operands a bounding box or rectangle contains what lies strictly inside and nothing outside, two boxes intersect exactly when they are not apart (regardless of the order of the operands), and expanding gives the smallest box around both, starting from an empty box that any first point replaces.',
  ['inputs'], 'all positions of boxes and points on the globe and in the plane', 'Tests use a few boxes, mostly in the north-eastern quadrant.',
  ['core/src/BoundingBox.hpp', 'core/src/math/Rectangle.hpp'],
  [('bounding box', 'core/src/BoundingBox.hpp'), ('rectangle', 'core/src/math/Rectangle.hpp')],
  'abstract evaluation over all orderings of the corner coordinates', 'Floating-point NaN is excluded; touching boundaries are left open.')

P('C37', 'Imports and searches cover the whole requested area and range',
  'Storing and searching visit every detail level from the first to the last of the range and every tile from the western to the eastern and from the northern to the southern edge of the area; a level is left out only because of the style, a tile only because it does not intersect the area or the filter of the import rejects it; that filter accepts every element overlapping the requested area and no element apart from it, and an import for one tile stores in that tile only; a search asks every registered store that has data.',
  ['inputs'], 'all areas, ranges, elements and numbers of stores', 'Tests use ranges of one or two levels and areas of few tiles.',
  ['core/src/utils/GeoUtils.hpp', 'core/src/index', 'core/src/mapcss/StyleProvider.cpp'],
  [('tile loops', 'core/src/utils/GeoUtils.hpp'), ('storing', 'core/src/index/ElementStore.cpp'), ('searching', 'core/src/index/GeoStore.cpp'), ('text search', 'core/src/index/BitmapIndex.cpp')],
  'linear normal form of loop bounds, path analysis of loop bodies, and abstract evaluation of filters', '')

P('C38', 'Latitude and longitude never change places',
  'Wherever the core expects a latitude it is given a latitude and never a longitude or an elevation, and the other way round: in positions, bounding boxes, elevation and tile lookups, points of the plane (longitude first) and flat coordinate arrays, on the way from parsers and the native interface through clipping and the builders to the meshes.',
  ['inputs'], 'all coordinates and all places where one is passed on', 'A swap shows only where latitude and longitude differ enough for a test to notice; most tests use areas near (0, 0), square boxes or symmetric data.',
  ['core/src', 'core/shared'],
  [('positions', 'core/src/GeoCoordinate.hpp'), ('native interface', 'core/shared/Storage.hpp'), ('parsers', 'core/src/formats'), ('clipping', 'core/src/index/ElementGeometryClipper.cpp'), ('meshes', 'core/src/builders/MeshBuilder.cpp')],
  'axis inference: a type system of latitude, longitude and elevation over expressions, parameters, members and array positions, checked at every place declared to be one of them', '')

N('N01', 'Tile and coordinate arithmetic is correct',
  'Conversion between geographic coordinates, tiles and bounding boxes is correct for every coordinate and level of detail, including edges and the antimeridian.',
  ['inputs'], 'all coordinates and levels', 'sampled points only', ['core/src/utils/GeoUtils.hpp', 'core/src/BoundingBox.hpp'], [('conversions', 'core/src/utils/GeoUtils.hpp')],
  'quantifies over numerical results of floating-point arithmetic; no structural part of it is a necessary condition that a static rule could decide')
N('N02', 'Clipping and triangulation produce correct geometry',
  'Clipped elements cover exactly the part of the element inside the tile, and triangulated surfaces cover exactly the polygon.',
  ['inputs'], 'all polygons', 'sampled shapes only', ['core/src/index/ElementGeometryClipper.cpp', 'core/src/builders/MeshBuilder.cpp'], [('clipper and triangulation', 'core/src')],
  'geometric result of floating-point and integer computation; the structural clauses (state isolation, array lockstep, serialisation) are claimed as C03, C16 and C18')
N('N03', 'Elevation values are interpolated correctly',
  'The elevation returned for a coordinate is the interpolation of the surrounding samples of the cell that contains it.',
  ['inputs'], 'all coordinates', 'sampled coordinates only', ['core/src/heightmap'], [('interpolation', 'core/src/heightmap')],
  'numerical result; which sample an index expression selects cannot be bounded by a sound static argument in reach')
N('N04', 'Text search returns exactly the matching elements',
  'A search returns exactly the elements of the requested area and detail levels that contain all and-terms, at least one or-term and no not-term.',
  ['inputs', 'histories'], 'all queries and data sets', 'few queries', ['core/src/index/BitmapIndex.cpp', 'core/src/index/GeoStore.cpp'], [('bitmap queries', 'core/src/index/BitmapIndex.cpp')],
  'boolean result of runtime bitmaps and word splitting; result equality is outside what shape of code decides')
N('N05', 'Generated trees and stochastic rules follow their distribution',
  'Rule systems expand as written and stochastic alternatives are chosen with their given probability.',
  ['programs', 'inputs'], 'all rule systems', 'few rule systems', ['core/src/lsys'], [('expansion', 'core/src/lsys')],
  'distribution of runtime values')
N('N06', 'Colours and gradients evaluate to the specified values',
  'A gradient evaluates at every position to the linear blend of its neighbouring stops.',
  ['inputs'], 'all gradients and positions', 'few gradients', ['core/src/mapcss/ColorGradient.hpp', 'core/src/utils/GradientUtils.cpp'], [('gradients', 'core/src/mapcss/ColorGradient.hpp')],
  'numerical result')
N('N07', 'Requests finish within bounded time and memory',
  'Loading a tile needs time and memory bounded by the amount of data in that tile.',
  ['inputs', 'configurations'], 'all tiles', 'no performance tests', ['core/src'], [('whole pipeline', 'core/src')],
  'runtime cost; termination of the input-driven recursion is claimed as C15')
N('N08', 'Building the same tile twice gives the same meshes',
  'The output for a tile is a function of the data, style and tile.',
  ['histories', 'schedules'], 'all repetitions of a request', 'few repetitions', ['core/src'], [('whole pipeline', 'core/src')],
  'equality of outputs over histories; random generators seeded with constants and unordered iteration would have to be related to values')
