prop('C02', 'What the serializers write, the matching deserializers read back',
     'For every type that can be serialized, the deserializer consumes exactly the sequence of fields the serializer '
     'emits, in the same order, with the same encodings, and puts each into the member it came from. It reports '
     'exactly the number of bytes it consumed, and every member of the rebuilt object is set from the data. Host- and '
     'network-order encodings of one value are the byte-wise identity and the byte-wise reversal respectively.',
     ['inputs'], 'every serializable value, every position in a larger buffer, every element codec',
     'round-trip tests exist for a few types with one or two small values; most structures (trees, grids, graphs, '
     'search results) are never round-tripped, nor at non-zero positions',
     [H + 'serialization.hpp', S + 'serialization.cpp', H + 'simple_graph.hpp', H + 'simple_graph_search.hpp',
      H + 'voxel_grid.hpp', H + 'dynamic_spatial_hashed_voxel_grid.hpp', H + 'simple_rrt_planner.hpp'],
     [('mirrored Serialize/Deserialize pairs', H), ('running position in every deserializer', H)],
     'writer/reader event-sequence comparison over inlined IR, with bit-provenance for the leaf encodings',
     'Compares the ordered field events, their encodings, positions, and source/destination members; values produced by '
     'user-supplied element codecs are assumed to round-trip.')

prop('C03', 'Voxel grids only touch in-bounds cells, and always the cell asked for',
     'Any grid lookup, by index, 3d location or 4d location, either reports that the cell is out of bounds or reaches exactly the cell '
     'whose coordinates were asked for, never storage outside the grid. The mapping between cell coordinates and storage position is '
     'row-major, in range for every in-bounds coordinate, and inverted exactly by the reverse mapping. '
     'A mutable cell is handed out only after the access hook has been asked about that same cell and has agreed, and a '
     'stored inverse transform is always the inverse of the stored transform.',
     ['inputs', 'programs'], 'every grid size, every index and location, every overload and derived grid',
     'tests use one small grid with equal-ish sizes and in-range indices through a few of the overloads',
     [H + 'voxel_grid.hpp', H + 'dynamic_spatial_hashed_voxel_grid.hpp'],
     [('bounds test and row-major index', H + 'voxel_grid.hpp'), ('mutable access hook', H + 'voxel_grid.hpp')],
     'linear-inequality and symbolic-term analysis of the inlined IR of every instantiated grid method',
     'Floating-point location-to-index arithmetic is compared as a symbolic term, not evaluated.')

prop('C04', 'Parallel loops run every index exactly once and deliver every failure',
     'A parallel for-loop over a range calls its body for each index of the range exactly once, for every backend, '
     'thread count and range, including ranges that do not start at zero and are shorter than the thread count. It '
     'returns only after all its work has finished, and if any body throws, an exception reaches the caller. '
     'The thread number given to a body is below the thread count in use, and no two concurrent bodies share one.',
     ['schedules', 'inputs', 'configurations'], 'every range, degree of parallelism, backend and interleaving',
     'tests run one range on the default backend; splits, offsets and failures depend on thread count and timing',
     [H + 'parallelism.hpp', H + 'openmp_helpers.hpp'],
     [('static split of the range', H + 'parallelism.hpp'), ('dynamic dispatch of items', H + 'parallelism.hpp')],
     'symbolic partition argument and must-pass-through analysis over the IR of the loop drivers',
     'Thread interleaving itself is not explored: the argument is that ranges are disjoint by construction and every '
     'future is drained on every path.')

prop('C05', 'Parallel loop bodies share nothing they write',
     'Every algorithm in the library that runs a parallel loop lets each iteration write only storage of its own (indexed by its own '
     'iteration number or thread number, with the storage sized to cover every possible number) and otherwise only '
     'reads what the iterations share. No concurrent iteration inserts into, resizes or otherwise changes the shape of a '
     'shared container, nor packs several iterations into one storage unit.',
     ['schedules'], 'every interleaving, thread count and input size',
     'a data race is visible only under particular timing; tests compare results of a handful of runs',
     [H + 'simple_knearest_neighbors.hpp', H + 'simple_prm_planner.hpp', H + 'simple_hausdorff_distance.hpp',
      H + 'simple_hierarchical_clustering.hpp', H + 'simple_kmeans_clustering.hpp', H + 'simple_graph_search.hpp',
      H + 'math.hpp'],
     [('per-thread and per-index result slots', H)],
     'write-effect analysis of every parallel body, with index-provenance of every written address',
     'User callbacks invoked by bodies are assumed to be safe to call concurrently.')

prop('C06', 'Compression and base64 helpers never misreport a failure or overrun',
     'Compressing or decompressing data, in memory or to and from a file, either returns complete data or throws: no '
     'error status of the compression library or of the file stream is ignored, truncated or corrupt input never yields a '
     'silently shortened result, and stream state is released exactly once whether the call succeeds or reports a library '
     'failure. Base64 encoding and decoding look up and emit only within their tables and buffers for every possible input, '
     'and decoding what was encoded gives the same bytes.',
     ['inputs', 'fault_sequences'], 'every byte string, every library status, every file state',
     'tests do not cover these helpers; failures need corrupt input or failing files',
     [H + 'base64_helpers.hpp', S + 'base64_helpers.cpp', H + 'zlib_helpers.hpp', S + 'zlib_helpers.cpp'],
     [('status checks after every zlib call', S + 'zlib_helpers.cpp'), ('lookup tables', S + 'base64_helpers.cpp')],
     'error-status must-check and typestate analysis over the IR; known-bits and residue-class position analysis of base64',
     'zlib itself is trusted to follow its documented contract.')

prop('C07', 'Optional values are only ever read when present',
     'Reading the value of an optional-like object (owning, referencing, or a query result) that holds nothing always '
     'throws and never dereferences. Assigning, copying, moving, swapping and resetting keep the presence flag and the '
     'stored value in step: afterwards the target is present exactly when the source was.',
     ['programs', 'histories'], 'every sequence of operations on such objects, every value type',
     'tests exercise some sequences for some types only',
     [H + 'maybe.hpp', H + 'voxel_grid.hpp', H + 'dynamic_spatial_hashed_voxel_grid.hpp'],
     [('presence test before access', H + 'maybe.hpp')],
     'typestate / guarded-dereference analysis over the IR of every accessor and special member',
     'Value lifetime and flag are tracked on every path of every accessor, special member and factory, exceptional exits of the value '
     'type included; the referenced object outliving a referencing maybe is the caller\'s obligation.')

prop('C08', 'Graph edges are always stored consistently at both endpoints',
     'In the graph container, every edge inserted, reweighted, pruned or copied appears with the same weight, in the out-list of its '
     'start node and the in-list of its end node, with start and end stored in that order. Every operation refuses node '
     'indices outside the graph before touching any node. Pruning keeps exactly the surviving nodes and the edges '
     'between them, renumbered consistently.',
     ['inputs', 'histories'], 'every graph and every sequence of edge and node operations',
     'tests use one small graph and only bidirectional edges of equal weight',
     [H + 'simple_graph.hpp'],
     [('paired AddInEdge/AddOutEdge', H + 'simple_graph.hpp')],
     'paired-effect and argument-provenance analysis over the IR',
     'Each mutator, the linkage check, pruning and reweighting are compared against their pairing rules on every path; edge lists '
     'edited by the caller through mutable node references are outside the rule.')

prop('C10', 'Planner trees always link parent and child both ways',
     'Whenever a tree-growing planner adds a state, the new state names the node it was extended from as its parent and '
     'that parent lists the new state as a child, and neither link is made without the other. States already in a tree '
     'are never moved, overwritten or re-parented by growth, and every solution path returned is read off parent links '
     'from a goal state to the root, then put in start-to-goal order. There is one path for every goal state or connection between '
     'two trees the caller\'s check accepted, and the library\'s extension functions propose a state only once the edge check accepted the '
     'motion to it from the state it is to be linked below.',
     ['inputs', 'histories'], 'every planning problem, sampler and extension function',
     'tests plan on one map with fixed seeds and check only that a path is found',
     [H + 'simple_rrt_planner.hpp'],
     [('parent/child bookkeeping after each extension', H + 'simple_rrt_planner.hpp')],
     'paired-effect and value-provenance analysis over the IR of the planning loops',
     'The planners are analysed over an opaque tree and the library tree separately; callbacks are assumed not to rearrange the tree.')

prop('C11', 'Roadmap edges are only added after validation, with matching weights',
     'A roadmap only ever gains an edge between two different nodes after the caller\'s edge check has accepted that motion in the '
     'direction the edge is stored (either direction when declared symmetric), weighted with the caller\'s distance in that direction. '
     'Each candidate connection is evaluated and stored in both directions, and sampled states are added only after the caller\'s '
     'state check accepted them. Updating a roadmap sets every edge, in both copies, to the caller\'s distance in its direction, or '
     'to infinity when the check rejects it.',
     ['inputs', 'configurations'], 'every roadmap, sampler, distance function, edge check and symmetry setting',
     'tests use symmetric Euclidean distances on one map',
     [H + 'simple_prm_planner.hpp'],
     [('edge check before distance before insertion', H + 'simple_prm_planner.hpp')],
     'guard-dominance and argument-provenance analysis over the IR',
     'Parallel loop bodies are analysed as closures over their creator; the per-neighbour hand-over arrays are matched slot by slot. '
     'The caller\'s callbacks and neighbour provider are opaque; a provider supplied by the caller is trusted to measure in the direction asked.')

prop('C12', 'Path post-processing keeps endpoints and only uses validated shortcuts',
     'Shortcutting and resampling a path keep its first and last states, and shortcutting leaves the states outside a replaced '
     'stretch unchanged and in order. A stretch is replaced only when the edge check accepted exactly that connection, in the '
     'path\'s direction (and, when marginal shortcuts are checked, every edge of the resampled replacement), and the reported share '
     'of collision-free edges counts those before the first rejected one. Nothing outside the path is indexed, and '
     'resampling inserts on each edge only states interpolated on that edge, followed by its end state.',
     ['inputs'], 'every path, random choice, and edge check',
     'tests run with one seeded path and a symmetric checker',
     [H + 'path_processing.hpp'],
     [('edge validity call before replacement', H + 'path_processing.hpp')],
     'guard-dominance, provenance and index-bounds analysis over the IR: container contents along each path as pieces of the input path',
     'The uniform random source is assumed to return values in [0, 1), interpolation at ratio 1 to return the end state, and '
     'callers of AttemptShortcut to pass an end index inside the path. States are doubles in the analysed instantiations.')

prop('C13', 'Optional callbacks are only invoked when they were supplied',
     'A callback that may legitimately be absent (planner and task-execution callbacks, state heuristics, loggers, cleared scope-exit '
     'actions) is invoked only where it is known to be present. Every entry point works without each optional callback, doing '
     'everything else it would have done, and one that is supplied is invoked or handed on in its own role, never dropped.',
     ['configurations'], 'every combination of supplied and absent callbacks',
     'tests always supply the same set of callbacks',
     [H + 'simple_rrt_planner.hpp', H + 'simple_task_planner.hpp', H + 'simple_kmeans_clustering.hpp', H + 'utility.hpp'],
     [('presence test in front of each optional call', H + 'simple_rrt_planner.hpp')],
     'flow-sensitive presence analysis of function objects over the IR, with the region controlled by each presence test',
     'Which callbacks are optional is a table taken from the documentation and default arguments; std::function is opaque and '
     'its own presence test trusted. When a supplied callback is invoked (how often, with which values) is not decided here.')

prop('C17', 'Graph searches expand each node once and report consistent paths',
     'The best-first searches always take the cheapest queued entry, expand a node at most once per improvement of its '
     'cost, and record predecessor and cost together. A reported path starts at the start, ends at the goal, follows recorded '
     'predecessors, and its reported length is the recorded cost of the goal; when no path exists that is reported as '
     'such, never as an empty success.',
     ['inputs'], 'every graph, heuristic, start and goal',
     'tests search a few small graphs',
     [H + 'simple_astar_search.hpp', H + 'simple_graph_search.hpp', H + 'simple_task_planner.hpp'],
     [('queue ordering, explored map, backpointers', H + 'simple_astar_search.hpp')],
     'comparator, paired-update and provenance analysis over path segments of the IR',
     'Priority queue and hash tables are opaque with their documented meaning; callbacks are assumed not to touch the search\'s own '
     'state and hash and equality to agree. Optimality of the cost is not decided (C30). A shape of the loop that is not recognised '
     'is counted as undecided, not alarmed on.')

prop('C19', 'Copies and clones share no state with their source',
     'A copied, moved-to or cloned object holds all contents of its source and can be used and changed without affecting it. '
     'No object keeps a position or pointer into another object\'s storage after being copied or moved, and no state is shared '
     'between objects through static variables. Types that exist to refer to something outside (optional references, graph adapters '
     'and overlays, shared action primitives) copy exactly that reference and nothing else.',
     ['histories', 'programs'], 'every copyable type of the library and every later use of either object',
     'tests copy few objects and rarely use both afterwards',
     [S + 'time_optimal_trajectory_parametrization.cpp', H + 'time_optimal_trajectory_parametrization.hpp',
      H + 'simple_graph.hpp', H + 'voxel_grid.hpp', H + 'dynamic_spatial_hashed_voxel_grid.hpp', H + 'utility.hpp'],
     [('value members and hand-written copy operations', H),
      ('clone functions and the path segment list', S + 'time_optimal_trajectory_parametrization.cpp')],
     'record-layout sharing analysis and per-member dataflow over the IR of every copy, move and clone operation',
     'Standard containers, Eigen types and std::function are trusted to copy deeply; what a caller\'s function object captures is its own '
     'business. A member declared mutable is taken as a cache that a copy need not carry over. Ways of copying that are not recognised are '
     'counted as undecided, not alarmed on.')

prop('C22', 'Nearest-neighbour and set-distance reductions consider every element',
     'A K-nearest-neighbour search returns min(K, range size) pairs of the requested range with the smallest distances that the caller\'s '
     'function reports, each item at most once and with its own index and distance; serial and parallel forms return equally good items. '
     'The Hausdorff distance is the largest, over the first set, of the smallest distance to the second set, the warping cost is that of the '
     'cheapest alignment of the two sequences (also on a reused evaluator), and a pairwise distance matrix holds the caller\'s distance of its '
     'two items in every cell. Empty sets, mismatched matrices and invalid ranges or K are refused by an exception.',
     ['inputs', 'configurations'], 'every collection, range, K, distance function and degree of parallelism',
     'tests compare a few fixed collections, with parallel blocks larger than K and fresh evaluators',
     [H + 'simple_knearest_neighbors.hpp', H + 'simple_hausdorff_distance.hpp', H + 'simple_dtw.hpp', H + 'math.hpp'],
     [('serial and parallel selection and merge', H + 'simple_knearest_neighbors.hpp'),
      ('running extrema', H + 'simple_hausdorff_distance.hpp'), ('cost matrix recurrence', H + 'simple_dtw.hpp'),
      ('BuildPairwiseDistanceMatrix', H + 'math.hpp')],
     'path-wise value analysis of reduction loops over the IR: range, start value, comparison and completeness of every running extremum',
     'The caller\'s distance function is taken to be deterministic and non-negative; the standard selection algorithms and the parallel '
     'loops (C04) are trusted. Loops whose shape is not recognised are counted as undecided, not alarmed on.')

prop('C23', 'Hierarchical clustering joins the closest items and loses none',
     'Clustering returns a partition: every item of the input is in exactly one cluster, with its own index and value, whatever the '
     'distances, the linkage and the degree of parallelism. Two items (values or clusters) are joined exactly when they are a closest pair '
     'under the chosen linkage (the largest distance between elements of the two for complete link, the smallest for single link) and that '
     'distance is within the bound, until no such pair is left. A distance matrix that does not fit the data is refused by an exception.',
     ['inputs', 'configurations'], 'every data set, distance matrix, bound, linkage and degree of parallelism',
     'tests cluster one fixed set of points with well separated clusters, where the order of joins and ties do not matter',
     [H + 'simple_hierarchical_clustering.hpp'],
     [('closest pair searches', H + 'simple_hierarchical_clustering.hpp'), ('IndexClusterWithDistanceMatrix', S + 'simple_hierarchical_clustering.cpp'),
      ('MakeElementClusteringFromIndexClustering', H + 'simple_hierarchical_clustering.hpp')],
     'path-wise value analysis of the search and join loops over the IR: completeness, linkage and guard of every running minimum, effect of every join',
     'The matrix is taken to be symmetric and free of NaN. Loops whose shape is not recognised are counted as undecided, not alarmed on.')

prop('C24', 'K-means labels every item with the centre nearest to it',
     'K-means clustering returns one label per item, each naming the centre nearest to that item under the caller\'s distance, where the '
     'centres are the caller\'s (weighted) averages of the items with each label and their own weights: it stops only after a complete round '
     'of averaging and labelling left every label unchanged. Empty data gives no labels and one cluster gives all zeros; no clusters, more clusters '
     'than items, or label and data sizes that differ are refused by an exception rather than looped on for ever.',
     ['inputs', 'configurations'], 'every data set, weights, number of clusters, seed and degree of parallelism',
     'tests cluster one fixed set of points with uniform weights; an early stop or swapped weight gives the same labels there',
     [H + 'simple_kmeans_clustering.hpp'],
     [('labels', H + 'simple_kmeans_clustering.hpp'), ('centres', H + 'simple_kmeans_clustering.hpp'),
      ('rounds until convergence', H + 'simple_kmeans_clustering.hpp')],
     'path-wise value analysis of labelling, averaging and convergence loops over the IR: which item, weight, label and centre each element is given',
     'The caller\'s distance and average are taken to be deterministic; that the rounds end is the caller\'s (a mean that lowers the total distance). '
     'Loops whose shape is not recognised are counted as undecided, not alarmed on.')

prop('C15', 'Random sources are reproducible from their seed',
     'The numbers a generator yields are determined by its seed alone: constructing or seeding sets its complete state, whatever was drawn '
     'before; each draw is that of the published algorithm (SplitMix64, xorshift128+, xorshift1024*) and touches nothing but that state, and '
     'discard(n) is n draws for every n. A random index is the floor of one draw times the number of values, and empty ranges are refused. Random '
     'rotations are unit quaternions made of three separate draws, angles over full turns, taken from the caller\'s generator only; nothing in the '
     'library draws on a clock, a device or a generator kept between calls.',
     ['inputs', 'histories'], 'every seed, every history of draws before it, every count discarded, every generator and thread',
     'tests seed a few fresh generators and look at statistics; a state left over from before, or a draw used twice, does not show there',
     [H + 'simple_prngs.hpp', H + 'utility.hpp', H + 'random_rotation_generator.hpp', H + 'simple_kmeans_clustering.hpp'],
     [('generators', H + 'simple_prngs.hpp'), ('random indices', H + 'utility.hpp'), ('random rotations', H + 'random_rotation_generator.hpp'),
      ('seeded clustering', H + 'simple_kmeans_clustering.hpp')],
     'symbolic next-state functions over xor-linear and modular terms compared with the published ones, read/write sets of drawing and seeding, '
     'and an effect scan of every library function for clocks, devices and shared generators',
     'Distributions and engines of the standard library are taken as specified; statistical quality is not decided. '
     'Loops whose shape is not recognised are counted as undecided, not alarmed on.')

prop('C18', 'Conversions keep every component of a pose or vector in its place',
     'Every component of a converted pose, rotation, twist or vector is the one the convention defines: roll-pitch-yaw applied as R*P*Y (Y*P*R '
     'for the URDF forms), Euler angles about X, Y and Z of the very rotation given, quaternions as x y z w in lists, twists as translation then '
     'rotation, Skew and Unskew (of the skew-symmetric part) inverse to each other. Vectors of any length convert element by element, every '
     'element once; a list of the wrong length is refused instead of partly used.',
     ['inputs'], 'every pose, rotation, matrix and vector of every length',
     'tests convert a few values, mostly about one axis, where a swapped order or component does not show',
     ['src/common_robotics_utilities/conversions.cpp', 'src/common_robotics_utilities/math.cpp'],
     [('pose and list conversions', 'src/common_robotics_utilities/conversions.cpp'), ('hat and skew operators', 'src/common_robotics_utilities/math.cpp')],
     'path-by-path comparison of the value terms each function computes (polynomials over arguments, elements and half-angle sines and cosines, '
     'Eigen inlined) with those of a written-out definition',
     'TransformToRPY is not compared; rotation matrices and Eigen\'s own algorithms are taken as their source says; real arithmetic. '
     'Loops or helper calls that are not recognised are counted as undecided, not alarmed on.')

prop('C20', 'Vector, interpolation and angle helpers compute their formula everywhere',
     'Each helper gives its defining formula for every element and every branch: sums, norms, absolute values, products, quotients, differences of '
     'vectors of any length, squared and plain distances, standard deviation, adjoints of transforms, exact and close comparison of all components; '
     'interpolation clamps the ratio to [0, 1] and weighs both ends; angles wrap to [-pi, pi), their signed distances, sums and ranges follow from '
     'that, equal angles span no range. Clamping returns the nearest bound, spreading the threshold on the value\'s side of the midpoint, '
     'inverted bounds are refused, and arguments of different sizes are refused.',
     ['inputs'], 'every vector, size, ratio, angle and bound',
     'tests try a few values away from boundaries; equal sizes only, one or two components, and no value at a threshold',
     ['src/common_robotics_utilities/math.cpp', H + 'utility.hpp'],
     [('vector and angle arithmetic', 'src/common_robotics_utilities/math.cpp'), ('clamping and spreading', H + 'utility.hpp')],
     'path-by-path comparison of value terms, outcomes and loop steps with those of the defining formula, with case splits on the conditions inside values',
     'Real arithmetic without NaN: rounding is not decided, nor are functions resting on eigenvectors, logarithms or slerp (see C32). '
     'Loops or helper calls that are not recognised are counted as undecided, not alarmed on.')

prop('C30', 'Shortest-path searches return the optimal cost',
     'With an admissible and consistent heuristic the best-first searches return a path of minimum total cost.',
     ['inputs'], 'every graph, cost and admissible heuristic', 'tests compare a few hand-made graphs',
     [H + 'simple_astar_search.hpp', H + 'simple_graph_search.hpp'], [('priority queue', H + 'simple_astar_search.hpp')],
     na='optimality is a statement about sums of run-time costs along all paths; no sound static argument in reach '
        'bounds it. The structural conditions it rests on (queue order, relaxation test, paired updates) are decided '
        'under C17.')

prop('C31', 'Time-parametrized trajectories respect velocity and acceleration limits',
     'A trajectory reported valid never exceeds the configured joint velocity and acceleration limits at any time, and '
     'passes through the whole path.',
     ['inputs'], 'every path, limit vector and time step', 'tests do not cover the module',
     [S + 'time_optimal_trajectory_parametrization.cpp'], [('phase-plane integration', S + 'time_optimal_trajectory_parametrization.cpp')],
     na='a numerical result of floating-point phase-plane integration with sampled bounds; nothing in the shape of the '
        'code decides it.')

prop('C32', 'Averages and interpolations are numerically correct',
     'Interpolated and averaged vectors, rotations and poses lie at the requested ratio along the shortest path and are '
     'normalised, up to rounding.',
     ['inputs'], 'every pair of values, ratio and weight vector', 'tests sample a handful of values',
     [S + 'math.cpp', H + 'math.hpp'], [('slerp, weighted sums, eigenvectors', S + 'math.cpp')],
     na='numerical accuracy of floating-point formulas over all inputs is outside what static rules on the code can bound.')

prop('C33', 'Random samples follow the distributions they promise',
     'The generators and samplers produce values with the promised range and distribution.',
     ['inputs', 'histories'], 'every seed and length of sequence', 'tests check a few statistics loosely',
     [H + 'simple_prngs.hpp', H + 'random_rotation_generator.hpp', H + 'utility.hpp'], [('generators', H + 'simple_prngs.hpp')],
     na='a statistical property of long output sequences; no static argument in reach decides it.')
