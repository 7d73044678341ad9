"""Which harness binaries decide which property, and what they run."""

STUBS = [
    "OS scheduler, thread creation and blocking (pthread mutex/cond/rwlock/barrier/sem, futex, std::thread): seeded simulator scheduler",
    "OpenMP runtime libgomp: simulator implementation of GOMP_*/omp_* on simulated threads",
    "clocks and sleeping: simulated monotonic and wall clocks",
    "malloc/new: simulator arena with redzones, use-after-free detection and injectable failure",
    "file system: simulated in-memory disk with page cache and injectable faults",
]
ASSUME = [
    "Execution is sequentially consistent; weaker memory orders are covered by the happens-before race detector, not executed.",
    "Context switches happen at memory accesses, atomics and synchronisation operations of instrumented code (the repository's and "
    "the standard library's templates); code inside precompiled libstdc++/libz runs without preemption.",
    "Seeded search explores a sample of schedules, inputs and fault sequences; it is not exhaustive.",
]
_P = "include/common_robotics_utilities/"
HARNESS_REAL = {
    "traj": [_P + "time_optimal_trajectory_parametrization.hpp", "src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp",
             _P + "simple_dtw.hpp", _P + "math.hpp", "src/common_robotics_utilities/math.cpp"],
    "grid": [_P + "voxel_grid.hpp", _P + "dynamic_spatial_hashed_voxel_grid.hpp", _P + "serialization.hpp", "src/common_robotics_utilities/serialization.cpp",
             _P + "parallelism.hpp", _P + "maybe.hpp", _P + "utility.hpp"],
    "store": ["src/common_robotics_utilities/zlib_helpers.cpp", "src/common_robotics_utilities/base64_helpers.cpp", _P + "serialization.hpp",
              "src/common_robotics_utilities/serialization.cpp", _P + "voxel_grid.hpp", _P + "dynamic_spatial_hashed_voxel_grid.hpp", _P + "simple_graph.hpp",
              _P + "simple_graph_search.hpp", _P + "simple_rrt_planner.hpp", "libz (every region handed to it is checked)", "libstdc++ fstream over the simulated disk"],
    "pure": [_P + "math.hpp", "src/common_robotics_utilities/math.cpp", _P + "conversions.hpp", "src/common_robotics_utilities/conversions.cpp", _P + "color_builder.hpp",
             _P + "print.hpp", _P + "utility.hpp", _P + "serialization.hpp", "src/common_robotics_utilities/serialization.cpp", "src/common_robotics_utilities/base64_helpers.cpp",
             "src/common_robotics_utilities/zlib_helpers.cpp", "libz (every region handed to it is checked)"],
    "maybe": [_P + "maybe.hpp"],
    "util": [_P + "utility.hpp", _P + "gaussian_distributions.hpp", _P + "openmp_helpers.hpp", _P + "simple_prngs.hpp", _P + "random_rotation_generator.hpp", _P + "parallelism.hpp",
             "libstdc++ std::future/std::promise/std::packaged_task/std::async/std::function"],
    "task": [_P + "simple_task_planner.hpp", _P + "simple_astar_search.hpp", _P + "maybe.hpp", _P + "utility.hpp"],
    "rrt": [_P + "simple_rrt_planner.hpp", _P + "path_processing.hpp", _P + "simple_prm_planner.hpp", _P + "simple_knearest_neighbors.hpp",
            _P + "maybe.hpp", _P + "utility.hpp", _P + "math.hpp", "src/common_robotics_utilities/math.cpp", _P + "parallelism.hpp"],
    "prm": [_P + "simple_prm_planner.hpp", _P + "simple_graph.hpp", _P + "simple_graph_search.hpp", _P + "simple_astar_search.hpp",
            _P + "simple_knearest_neighbors.hpp", _P + "serialization.hpp", _P + "maybe.hpp", _P + "parallelism.hpp"],
    "nn": [_P + "simple_knearest_neighbors.hpp", _P + "simple_hausdorff_distance.hpp", _P + "math.hpp", "src/common_robotics_utilities/math.cpp",
           _P + "parallelism.hpp", _P + "openmp_helpers.hpp"],
    "cluster": [_P + "simple_hierarchical_clustering.hpp", _P + "simple_kmeans_clustering.hpp", _P + "simple_knearest_neighbors.hpp",
                _P + "math.hpp", "src/common_robotics_utilities/math.cpp", _P + "parallelism.hpp"],
    "parallel": [_P + "parallelism.hpp", _P + "openmp_helpers.hpp", _P + "utility.hpp", "libstdc++ std::async/std::future/std::thread"],
}

PROPS = {}


def _p(pid, bins, rule, level="exploration", **kw):
    PROPS[pid] = dict(bins=bins, rule=rule, level=level, **kw)


_p("A01", ["h_parallel", "n_parallel"],
   "Random loops: static/dynamic, range/index, every backend, DOP 1..13, ranges of every sign and at the ends of int64, nested and "
   "concurrent callers, random OpenMP environments.")
_p("A02", ["h_parallel", "n_parallel"], "As A01; each body marks its worker number as in use and checks exclusivity and bounds.")
_p("A03", ["h_parallel", "n_parallel"],
   "As A01 with bodies that throw, thread creation that fails and allocations that fail at seeded points.")
_p("A04", ["h_parallel", "n_parallel"], "As A01; in-flight invocations are counted and completion is bounded in steps.")

_p("B01", ["h_nn", "n_nn"],
   "Random item sets with ties, ranges, K, DOP 1..13, called plainly, from two threads or inside an OpenMP or ASYNC loop; results compared "
   "with a brute-force search; throwing distance functions, failing allocations and thread creation.")
_p("B02", ["h_nn", "n_nn"], "As B01 for Hausdorff distances and distance matrices against their serial definitions.")
_p("B03", ["h_cluster", "n_cluster"],
   "Random item sets and distance matrices with ties and NaN-free extremes; clusters compared with a serial reference agglomeration.")
_p("B04", ["h_cluster", "n_cluster"],
   "Random data, cluster counts (including impossible ones), weights and seeds; labels validated against the final centres and compared across "
   "parallelism settings.")

_p("C01", ["h_prm", "n_prm"],
   "Random worlds (symmetric or direction-dependent distances and validity, rejected states and edges, duplicates); roadmaps built, grown and "
   "re-weighted, directly or through an overlay, with per-worker callback storage; compared with a tie-tolerant reference roadmap.")
_p("C02", ["h_prm", "n_prm"],
   "Random histories of adding, pruning, copying, layering borrowing and owning overlays, (de)serialising and rebuilding graphs with failing allocations; content "
   "compared with a reference graph after every operation.")
_p("C03", ["h_prm", "n_prm"],
   "One to four threads run random path queries (trees, A*, lazy A*, roadmap queries through overlays or copies) on one constant roadmap; answers "
   "compared with a reference shortest-path computation and the roadmap with its original content.")

_p("D01", ["h_rrt", "n_rrt"],
   "Random histories of callback results (empty, single and branching propagations, states already at the goal, library or random nearest "
   "neighbours, callbacks that change, rewire or add states, callbacks that are omitted, name missing states or throw, failing allocations), for "
   "single- and bi-directional, single- and multi-path planning; trees, paths, callbacks and statistics replayed against the recorded history.")
_p("D02", ["h_rrt", "n_rrt"],
   "Planners, roadmap growing and the timeout helper run with timeouts from 100 ns to hours, steps that take from nothing to hours, stalls, "
   "monotonic leaps and wall-clock steps; every check is judged against the simulated clock, including exactly at the deadline.")
_p("D03", ["h_rrt", "n_rrt"],
   "Random paths (with repeated states), obstacle predicates, random streams including both ends of the unit interval, and parameters; every motion of "
   "the result is traced to the original path or to an accepted check.")

_p("E01", ["h_task", "n_task"],
   "Random action sets (costs with ties, free and infinitely expensive outcomes, colliding hashes, admissible but inconsistent heuristics), worlds that "
   "return predicted, unexpected, several or no outcomes, actions that throw or (un)register actions while running; every selection and execution is "
   "compared with a shortest-plan computation over the actions registered at that moment.")

_p("E02", ["h_task", "n_task"],
   "Random state spaces (ties, free and repeated motions, cycles, direction-dependent validity, several starts with costs, several or no goals, colliding "
   "hashes, inconsistent heuristics) searched in all three forms and three containers, plainly, by two callers or inside loops; children reported in changing "
   "order, throwing callbacks, failing allocations; results compared with a shortest-path computation.")

_p("F01", ["h_util"],
   "Up to four threads run random loads, stores, additions, subtractions, copies, moves and (self-)assignments on one to four shared atomics of six value "
   "types and two default orders; results and final values are explained by a linearizability search; data published with the default order is "
   "checked by the happens-before race detector.")
_p("F02", ["h_util"],
   "Random nestings of scope guards with small, large and empty actions, ended normally, early, by exceptions or on another thread, disarmed at any "
   "point, with failing allocations; every action is counted and ordered.")
_p("F03", ["h_util", "n_util"],
   "Random trees of OpenMP overrides (also with bad counts and inside regions) on one or two threads, ended normally or by exceptions, under random OpenMP "
   "environments in which the delivered teams are smaller than requested; the setting and every query are compared with the runtime's own values.")
_p("F04", ["h_util"],
   "Promises, packaged tasks, asynchronous and deferred functions whose producers are stalled or held back until the consumer's checks return; each "
   "readiness answer is bracketed by the producer's begin and end, and waiting is counted by the simulated kernel.")
_p("I01", ["h_util"],
   "Random histories of drawing, skipping, copying, assigning and reseeding of three generators on up to three threads; every value is compared with the stream "
   "of a fresh generator that was only ever drawn one by one, and rotations from equal streams with each other.")

_p("G01", ["h_maybe"],
   "Random histories over optional (and either-or) values of ten contained types, including ones whose copies and moves throw, that need memory, that only "
   "move or that are constant: construct, copy, move, (self-)assign, swap, reset, grow vectors, destroy; every object's construction and destruction is "
   "recorded and contents are compared with an ideal optional after each step.")

_p("G02", ["h_store"],
   "Data of 0 B to 2 MB (constant, random, runs, around the chunk size) compressed in memory or written to and read from files on a simulated disk by one or "
   "three threads: failed opens, short and failing writes and reads, interruptions, failing closes, full disks, machine crashes inside a write or between "
   "operations (lost, torn, zeroed sectors), bit flips, truncation, zeroed and appended bytes, failing allocations; an independent decoder judges every result.")
_p("G03", ["h_store"],
   "About 50 kinds of values (scalars, strings, vectors, maps, sets, matrices, transforms, graphs, trees, search results, dense and sparse grids, chunks, "
   "base64) are encoded at random offsets, read back (also by two threads, with failing allocations), then damaged (truncation, flips, replaced, removed and "
   "inserted bytes, hostile counts) and decoded; decoded values are used, re-encoded and compared; every buffer is exactly sized inside redzones.")

_p("H01", ["h_grid"],
   "Random histories over two dense grids of four value types, plain or with a derived class that records and vetoes accesses: reads and writes in every form "
   "(also of the grid's own values), resets, (re)initialisation, raw data, copies, moves, (de)serialisation of whole and cut data, failing allocations; after "
   "every operation everything a reader can see is compared with a bounded array.")
_p("H02", ["h_grid"],
   "Random histories over two sparse grids (or chunks on their own) of four value types: cell and chunk writes, mutable access, locations inside cells, on and "
   "next to cell and chunk boundaries and not finite, vetoes, copies, moves, (de)serialisation of whole and cut data, failing allocations; after every operation "
   "every cell, the set of chunks and the space around them are compared with a map of chunks.")
_p("H03", ["h_grid"],
   "Two to four tasks (threads, asynchronous or OpenMP loops) share one dense or sparse grid: all only reading (queries, copies, clones, serialisation), or each "
   "also writing the cells it owns in every form; values are checked at each read and at the end and all accesses are checked for data races.")
_p("I02", ["h_traj"],
   "Trajectories of random short paths are queried at any times (ends, step boundaries, next to earlier queries, out of range, not a number), cloned and "
   "destroyed in any order by one to three threads with failing allocations; each answer is compared with a trajectory that was never used before.")
_p("I03", ["h_traj"],
   "One or two aligners evaluate random sequences of 0 to 24 items with ties, forbidden pairs and negative costs, some abandoned by a throwing distance function, "
   "failing allocations or a missing function; each cost is compared with an independent search over all monotone alignments.")
_p("I04", ["h_util"],
   "Random counts and ranges of eight integer types (with the ends of each type) and unit sources with the ends of [0, 1), slow or throwing, on one to three "
   "threads with failing allocations; every choice is compared with the exact position of the unit number.")
_p("I05", ["h_util"],
   "Truncated gaussians around the mean, in narrow, wide and unbounded tails of both sides and multivariate gaussians of regular and singular covariance, "
   "sampled on one to three threads from fair streams and ones with extreme values; bounds, draws per sample, equality with a serial copy and (for fair "
   "streams) the deviation from the exact distribution are judged.",
   assume=["The deviation threshold of the distribution test is exceeded by chance with probability below 1e-12 per test."])
_p("J01", ["h_pure"],
   "About 90 computations on drawn, slightly altered and in-place replaced arguments, in two random orders (the second with failing allocations) and then by two "
   "or three threads that share or own the arguments; every answer is compared bit for bit with the first one and with that of a fresh copy of the process; "
   "the arguments must stay as they were.")
