"""The properties, in the order of their ids. tools/gen.py writes properties.jsonl and MANIFEST.json from this table."""

G = "source/girgs/include/girgs/"
GS = "source/girgs/source/"
H = "source/hypergirgs/include/hypergirgs/"
HS = "source/hypergirgs/source/"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, check=None, na=None, note=None, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    PROPS.append({"json": {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
                  "check": check, "na": na, "note": note})


TODO = "check not built yet"

prop("C04", "No sampled edge is lost, duplicated or altered on its way to the caller",
     "Every pair the samplers report ends up in the returned edge list exactly once, in the reported orientation, whatever the number of edges per thread. "
     "This holds for geometric (GIRG) and for hyperbolic random graph generation.",
     ["inputs", "schedules"], "all sampled edge sets, all distributions of edges over threads, every fill level of the per-thread buffers",
     "The loss or duplication only shows when a per-thread buffer crosses its flush threshold on some thread; the tests use graphs far below the threshold or never compare the full edge set at that size.",
     [GS + "Generator.cpp", HS + "Generator.cpp"],
     [("per-thread buffers flushed under a mutex", GS + "Generator.cpp generateEdges"), ("per-thread buffers flushed under a mutex", HS + "Generator.cpp generateEdges")],
     check="typestate analysis of the edge callback + address/loop-domain matching of the final copy",
     note="All control-flow paths of the callback and of the copy loops are decided; std::vector operations are trusted to behave as the standard says.")

prop("C09", "Torus and angular geometry: distances and cell distance bounds are exact",
     "The distance used between two GIRG positions is the maximum over all dimensions of the circular coordinate distance min(|d|, 1-|d|), for every dimension 1 to 5. "
     "A point lies in the cell of side 2^-l given by floor(x_d 2^l); two cells count as touching exactly if they differ by at most one step on the ring in every dimension, and the distance bound of a cell pair is the largest per-dimension gap max(0, ring steps - 1) in cell widths. "
     "The angular cells of the hyperbolic generator satisfy the same: cell of an angle, cell bounds, touching and distance on the circle.",
     ["inputs"], "all coordinates, all levels, all cell pairs, dimensions 1 to 5",
     "The tests sample a few cells on small levels and random points; a wrap-around or one-dimension error is only visible for particular cells.",
     [G + "SpatialTree.inl", G + "SpatialTreeCoordinateHelper.inl", H + "AngleHelper.h", HS + "AngleHelper.cpp", G + "Node.h"],
     [("distance of points", G + "Node.h"), ("touching and cell distance", G + "SpatialTreeCoordinateHelper.inl"), ("angular cells", HS + "AngleHelper.cpp")],
     check="identity of normal forms extracted from SSA (algebraic value numbering)",
     note="Real-number semantics; identity of terms is decided syntactically or by interpreting both normal forms over random points.")

prop("C10", "The fast hyperbolic distance tests agree with the hyperbolic law of cosines",
     "For two points, the distance from precomputed values and the radius comparison used for edges all denote the same hyperbolic distance acosh(cosh r1 cosh r2 - sinh r1 sinh r2 cos(da)), as real functions. "
     "A pair counts as closer than R exactly if this distance is smaller than R (strictly), and the argument of acosh is clamped at 1 so that rounding cannot produce an undefined distance.",
     ["inputs"], "all radii, angles and disk radii",
     "Tests compare on a few thousand random points with tolerance; they cannot cover all radius/angle regimes.",
     [H + "Point.h", H + "HyperbolicTree.inl"],
     [("precomputed trigonometric values", H + "Point.h"), ("distance threshold", H + "Point.h isDistanceBelowR")],
     check="identity of normal forms extracted from SSA (algebraic value numbering)",
     note="Real-number semantics; debug and release layouts of the point type are analysed separately.")

prop("C11", "Cell numbering: interleaving coordinates and recovering them are inverse",
     "For every level and dimension 1 to 5 the cell index interleaves the coordinate bits so that bit k of coordinate i is bit k*D+i of the index, and extracting coordinates from an index is the exact inverse. "
     "The portable and the hardware (BMI2) implementation compute the same function.",
     ["inputs", "configurations"], "all 32-bit indices and coordinates, dimensions 1 to 5, both instruction-set variants",
     "The test compiles only one variant and enumerates small levels; single-bit mask errors in high bits stay invisible.",
     [G + "BitManipulationGeneric.inl", G + "BitManipulationBMI2.inl", G + "BitManipulation.h"],
     [("bit deposit", G + "BitManipulationGeneric.inl"), ("pdep/pext", G + "BitManipulationBMI2.inl")],
     check="bit-provenance dataflow over fully unrolled SSA form",
     note="Complete for all inputs: every result bit is traced to the input bits it is copied from; pdep/pext semantics trusted.")

prop("C12", "Tree arithmetic: level offsets, children, parents and cell ranges agree",
     "Cell numbering is level by level: level l has 2^(D l) cells and starts right after the levels above, the children of cell c are 2^D c + 1 to 2^D c + 2^D, and the parent of c is floor((c-1)/2^D). "
     "The points of a cell of a weight or radius layer are the half-open index range of exactly its descendant cells on the layer's own level, and every accessor uses the same range.",
     ["inputs"], "all levels, cells and dimensions 1 to 5",
     "Tests enumerate a few levels; an off-by-one in range arithmetic for deep or first/last cells needs all cells.",
     [G + "SpatialTreeCoordinateHelper.h", G + "SpatialTreeCoordinateHelper.inl", G + "WeightLayer.h", H + "RadiusLayer.h", HS + "RadiusLayer.cpp", H + "AngleHelper.h"],
     [("closed forms of the level arithmetic", G + "SpatialTreeCoordinateHelper.h"), ("prefix ranges", G + "WeightLayer.h"), ("prefix ranges", H + "RadiusLayer.h")],
     check="identity of normal forms extracted from SSA (algebraic value numbering)",
     note="Integers are unbounded in the analysis; wrap-around of 32-bit indices at extreme depths is outside the claim.")

prop("C13", "Every supported dimension is sampled by its own sampler, others by none",
     "Positions of dimension 1 to 5 are sampled by the sampler of exactly that dimension, once, with the caller's weights, positions, alpha and seed. "
     "For any other dimension no sampler runs.",
     ["inputs"], "all position dimensions and parameters",
     "Tests call a few dimensions and do not compare the sampler against the requested dimension.",
     [GS + "Generator.cpp"], [("dimension dispatch", GS + "Generator.cpp generateEdges")],
     check="control-condition (BDD) case analysis of the sampler call sites",
     note="Decided for every dispatch value 0..8 symbolically; the constructor and sampling arguments are matched as terms.")

prop("C14", "Weights, positions, radii and angles are inverse-CDF transforms of seeded draws",
     "Weights are ((n/2)^(1-ple)-1)U+1)^(1/(1-ple)), coordinates U, radii acosh(V)/alpha with V uniform on [next above 1, cosh(alpha R)), angles uniform on [0, 2 pi); each of the n results has its own draw and is written exactly once. "
     "Thread t of a run with non-negative seed s draws from an engine seeded s+t; a negative seed means entropy.",
     ["inputs"], "all sizes, exponents, radii and seeds, serial and parallel",
     "Tests check ranges and rough means; a wrong exponent, interval end or seed offset passes them.",
     [GS + "Generator.cpp", HS + "Generator.cpp"], [("sampling loops", GS + "Generator.cpp"), ("sampling loops", HS + "Generator.cpp")],
     check="identity of normal forms extracted from SSA + tracking of draws to their distribution and engine",
     note="Formulas as real functions; std:: distributions and engines are trusted.")

prop("C15", "Weight scaling multiplies every weight by the factor of the right estimator",
     "Scaling multiplies every weight exactly once by the factor that it returns. The factor comes from the threshold estimator if alpha exceeds 8 and from the general one otherwise, called with the caller's weights, degree, dimension and alpha; alpha of 1 or alpha not greater than 0 is rejected with an exception.",
     ["inputs"], "all weights, degrees, dimensions and alphas",
     "Tests use a handful of alphas and tolerate 10-20% deviation of the degree.",
     [GS + "Generator.cpp", GS + "WeightScaling.cpp"], [("estimator selection and scaling loop", GS + "Generator.cpp scaleWeights")],
     check="control-condition case analysis + identity of normal forms",
     note="The accuracy of the estimators themselves is not claimed.")

prop("C16", "Edge generation, degree estimation and graph export do not modify their inputs",
     "Generating edges (both models), estimating a weight scaling and saving a graph never change the weights, positions, radii, angles or edges the caller passed in.",
     ["inputs", "schedules"], "all inputs, serial and parallel",
     "Tests rarely compare the inputs after the call and only on the sampled paths.",
     [GS + "Generator.cpp", HS + "Generator.cpp", GS + "WeightScaling.cpp", G + "SpatialTree.inl", H + "HyperbolicTree.inl"],
     [("read access to the arguments", GS + "Generator.cpp"), ("read access to the arguments", HS + "Generator.cpp")],
     check="interprocedural points-to and write-effect analysis",
     note="Definite pointers derived from the argument are followed through all functions and parallel regions of the library.")

prop("C21", "Conversions between hyperbolic and GIRG coordinates match the published mapping",
     "Converting radius to weight is exp((R-r)/2), weight to radius the inverse R-2 ln w, angle to position a/(2 pi) and position to angle the inverse; round trips are identities as real functions.",
     ["inputs"], "all radii, angles, weights and positions",
     "No test covers the conversion header's formulas over their whole domain.",
     [G + "Hyperbolic.h"], [("conversion functions", G + "Hyperbolic.h")],
     check="identity of normal forms extracted from SSA (algebraic value numbering)", note="Real-number semantics.")

prop("C22", "The connection-probability pre-filter never excludes a possible edge",
     "For n buckets over probabilities [0, max), the table entry i holds cosh of the distance at which two points connect with probability i max / n (never below distance 0), infinity for i = 0 and 1 for i = n, and every entry is written. "
     "A look-up for probability p reads entry floor(n p / max) as the bound above which a pair is surely disconnected, and entry ceil(n p / max) as the bound below which it is surely connected.",
     ["inputs"], "all distances, temperatures and disk radii",
     "Misclassification needs a distance near a bucket end together with a draw between the bounds; tests are statistical.",
     [H + "DistanceFilter.h"], [("bucket table", H + "DistanceFilter.h")],
     check="identity of normal forms extracted from SSA (algebraic value numbering)", note="Real-number semantics.")

prop("C26", "The hyperbolic disk radius is the published closed form",
     "The disk radius computed from size, alpha, temperature and degree equals 2 ln(n 2 alpha^2 T / (deg (alpha-1/2)^2 sin(pi T))) for temperatures between 0 and 1 and 2 ln(n 2 alpha^2 / (deg pi (alpha-1/2)^2)) for temperature 0. "
     "The NetworKit radius (calculateRadiusLikeNetworKit) equals 2 ln(n / (deg (pi/2) xi^-2 sin(pi T)/(pi T))) for temperatures between 0 and 1 and 2 T ln(n / (deg (1-1/T) (pi/2)^(1/T) xi^-2)) above 1, with xi = 2 alpha/(2 alpha - 1).",
     ["inputs"], "all sizes, alphas, temperatures and degrees",
     "Tests only check resulting average degrees with wide tolerance.",
     [HS + "Generator.cpp"], [("radius formulas", HS + "Generator.cpp calculateRadius, getTargetRadius")],
     check="identity of normal forms extracted from SSA (algebraic value numbering)", note="Real-number semantics.")

prop("C01", "Generation with a fixed seed is deterministic for a fixed number of threads",
     "With a non-negative seed and a fixed number of threads, what generateWeights, generatePositions, sampleRadii, sampleAngles and generateEdges sample (for edges: the set of edges) depends on their arguments only, not on the schedule, clocks, entropy, memory addresses, other machine properties or the state left behind by earlier calls (weight scaling is not part of this claim). "
     "Every random engine is seeded in the call that draws from it, with a value determined by the seed: engine t of the GIRG edge sampler with seed + t, the weight, position, radius and angle engines with the seed and the thread number, the parallel HRG edge engines from disjoint pieces of a number stream seeded with the seed. "
     "No two threads, shares or tasks draw from the same engine or from equally seeded engines of one parallel part, work is bound to per-thread engines only by a static schedule, dynamically claimed tasks have engines of their own, and no sum of floating-point numbers used for sampling is accumulated in an order that the schedule decides.",
     ["inputs", "schedules"], "all parameters, seeds and thread counts, all schedules",
     "Two equal runs in a test do not prove that every run is equal; most slips only show for particular seeds, thread counts or schedules.",
     [GS + "Generator.cpp", HS + "Generator.cpp", G + "SpatialTree.inl", H + "HyperbolicTree.inl"],
     [("engines seeded per thread", G + "SpatialTree.inl"), ("engines of shares and tasks", H + "HyperbolicTree.inl"), ("engines of sampling threads", GS + "Generator.cpp")],
     check="interprocedural taint analysis of nondeterminism sources + symbolic analysis of engine seeding, ownership and schedules",
     note="OpenMP tasks are not followed; std::random and OpenMP's static schedule are trusted.")

prop("C02", "Parallel generation is free of data races",
     "In no parallel part of the library (sampling of weights, positions, radii and angles, tree construction, sorting, edge sampling, task queue, edge collection, weight scaling) does one thread write a memory location that another thread reads or writes at the same time. "
     "Shared data is only touched by the owning thread's index, through atomic operations, under a common lock, inside a construct executed by one thread, or separated by a barrier or by waiting for a flag published under a lock. "
     "This holds for any number of threads and for every schedule.",
     ["schedules", "inputs"], "all interleavings, all thread counts and inputs",
     "Tests observe a few schedules; races rarely manifest and no test runs under a race detector.",
     [G + "SpatialTree.inl", H + "HyperbolicTree.inl", GS + "Generator.cpp", HS + "Generator.cpp", HS + "RadiusLayer.cpp", G + "IntSort.h", GS + "WeightScaling.cpp"],
     [("omp worksharing and per-thread state", G + "SpatialTree.inl"), ("task queue", H + "HyperbolicTree.inl"), ("radix sort", G + "IntSort.h")],
     check="lockset, barrier-segment and ownership analysis of outlined parallel regions with symbolic addresses",
     note="Writes through a table (marks of first cells, scatter of the radix sort) are assumed to hit distinct places; C23 decides the marks.")

prop("C03", "No thread of a parallel generation waits for ever",
     "Whatever number of threads the runtime grants, no parallel part of the library can hang: every barrier and work-sharing construct is reached by all threads of a team or by none, and a thread that waits for a condition (the announcement of the edge sampling tasks) is released, because a thread that does not wait for it itself sets the condition on every path, under the mutex of the waiting threads, and notifies all of them. "
     "Every mutex is released on every path, never taken by a thread that holds it, and different mutexes are always taken in the same order.",
     ["schedules", "inputs"], "all interleavings, all thread counts and inputs",
     "A hang needs a team smaller than asked for, a graph too small for tasks, or an unlucky interleaving.",
     [H + "HyperbolicTree.inl", G + "SpatialTree.inl", G + "IntSort.h", HS + "RadiusLayer.cpp", GS + "Generator.cpp", HS + "Generator.cpp"],
     [("announcement of the tasks", H + "HyperbolicTree.inl generate"), ("barriers", G + "IntSort.h")],
     check="path conditions of synchronisation constructs, lock typestate, release analysis of waiting loops",
     note="Exceptions thrown inside of parallel regions are outside of the claim. Termination of sequential loops is not decided.")

prop("C05", "GIRG sampling considers every pair of vertices exactly once",
     "For every distribution of points over cells and of weights over layers, the recursion over cell pairs offers every unordered pair of distinct vertices to exactly one sampling decision, serially (one thread) and in parallel (calls saved at the first parallel level are all made once). "
     "Pairs of layers are compared at level max(0, (floor(log2(W/w0^2)) - i - j - 2) / D), between touching cells of that level or between distant cells whose parents touch; in distant cells a geometric skip visits each pair of the block independently. "
     "Only blocks of distant cells with fewer than 1e-6 expected candidates, or any distant block when alpha is infinite, may be left out.",
     ["inputs", "schedules"], "all point sets, weights, dimensions 1 to 5 and thread counts",
     "Missing or doubled pairs only show for special layer/level combinations; tests compare against a naive sampler on a few graphs.",
     [G + "SpatialTree.inl", G + "WeightLayer.h", G + "SpatialTreeCoordinateHelper.inl"], [("cell-pair recursion", G + "SpatialTree.inl visitCellPair"), ("saved calls", G + "SpatialTree.inl generateEdges")],
     check="iteration-domain extraction (terms over memory reads from SSA), compared with the required sets on generated consistent data-structure models",
     note="Exhaustive per instance over all loop iterations and branches; instances (levels, layers, cells, prefix sums, thread counts) are generated, so the set of instances is finite.")

prop("C06", "Hyperbolic sampling considers every pair of vertices exactly once",
    "For every distribution of points over angular cells and radius layers of height 1, the recursion over cell pairs offers every unordered pair of distinct points to exactly one sampling decision, serially and in parallel (the shares of the first parallel level together make all calls once). "
    "Two layers are compared at the deepest level whose cells, 2 pi / 2^level wide, are wider than the angle at which points on the inner boundaries of both layers are at distance R, between touching cells of that level or between distant cells whose parents touch. "
    "Only blocks of distant cells with fewer than 1e-6 expected candidates, or any distant block at temperature 0, may be left out.",
    ["inputs", "schedules"], "all point sets, radii, temperatures and thread counts",
    "Missing or doubled pairs only show for special layer/level combinations; tests compare against a naive sampler on a few graphs.",
    [H + "HyperbolicTree.inl", H + "RadiusLayer.h"], [("cell-pair recursion", H + "HyperbolicTree.inl visitCellPair"), ("work sharing", H + "HyperbolicTree.inl visitCellPairCreateTasks")],
    check="iteration-domain extraction (terms over memory reads from SSA), compared with the required sets on generated consistent data-structure models",
    note="Exhaustive per instance over all loop iterations and branches; instances (levels, layers, cells, prefix sums, thread counts) are generated, so the set of instances is finite.")

prop("C07", "GIRG vertices are connected with the documented probability",
     "A considered pair of vertices is reported with probability min(1, ((w_u w_v / W) / dist^D)^alpha) for finite alpha, W being the sum of all weights, and exactly if w_u w_v / W exceeds dist^D for infinite alpha. "
     "In distant cells this is the product of the geometric selection probability, which bounds the probability of every pair of the block, and the acceptance of a draw made for the selected pair alone.",
     ["inputs"], "all weights, positions, alphas and dimensions 1 to 5",
     "Statistical tests cannot resolve small deviations of probabilities, nor ones that need special layers or levels.",
     [G + "SpatialTree.inl", G + "Node.h", G + "Helper.h"], [("connection decision", G + "SpatialTree.inl sampleTypeI/sampleTypeII")],
     check="decision conditions extracted as BDDs over normal forms, decided against the required probability on generated consistent models",
     note="Real-number semantics; equality at the exact threshold is not distinguished.")

prop("C08", "Hyperbolic vertices are connected with the documented probability",
    "A considered pair of points is reported with probability 1/(1+exp((dist-R)/(2T))) for positive temperature, and exactly if its hyperbolic distance dist is smaller than R for temperature 0. "
    "In distant cells this is the product of the geometric selection probability, which bounds the probability of every pair of the block, and the acceptance of a draw made for the selected pair alone.",
    ["inputs"], "all radii, angles, temperatures",
    "Statistical tests cannot resolve small deviations of probabilities, nor ones that need special layers or levels.",
    [H + "HyperbolicTree.inl", H + "DistanceFilter.h"], [("connection decision", H + "HyperbolicTree.inl sampleTypeI/sampleTypeII")],
    check="decision conditions extracted as BDDs over normal forms, decided against the required probability on generated consistent models",
    note="Real-number semantics; equality at the exact threshold is not distinguished.")

CLIF = ["source/cli/gengirg/main.cpp", "source/cli/genhrg/main.cpp"]

prop("C17", "Command line options reach the parameter they name, with the documented defaults",
    "Each documented option of gengirg and genhrg (given as '-name value', in any order; the last one wins) sets exactly the parameter it names, and an option left out or empty takes the default of the help text. "
    "Weights, positions, scaling, edges and export (gengirg) or radius, radii, angles and edges (genhrg) are each generated once, in this order, from exactly these parameters and from each other's results, on the requested number of threads. "
    "-nkr 1 selects the NetworKit radius estimate, -dot/-edge/-coord 1 each request one output file named '<file>.dot', '.txt' or '.hyp', and no other file is written.",
    ["inputs"], "all combinations of options",
    "No test runs the command line tools.", CLIF, [("option map", CLIF[0] + " parseArgs, main"), ("option map", CLIF[1] + " parseArgs, main")],
    check="string-constant propagation and data flow from option values to step arguments, compared with the documented table on generated command lines",
    note="The generation functions themselves are opaque here; std::map, std::string and std::stoi/stod are trusted.")

prop("C18", "Command line parameters outside of the documented range are rejected",
    "gengirg stops with a non-zero exit status before any generation step unless 1 <= d <= 5, 2 < ple <= 3, alpha > 1 (infinity included), 1 <= deg <= n-1 and 1 <= threads <= the available maximum; genhrg unless 0.5 < alpha <= 1, 0 <= t < 1, 1 <= deg <= n-1 and 1 <= threads <= the available maximum. "
    "Values that are not a number (nan) are rejected as well. Every value inside of these ranges, including the documented bounds, is accepted.",
    ["inputs"], "all parameter values",
    "No test runs the command line tools.", CLIF, [("range checks", CLIF[0] + " rangeCheck, main"), ("range checks", CLIF[1] + " rangeCheck, main")],
    check="path conditions of the generation steps and of the error exits extracted as BDDs over option terms (NaN-aware comparisons), decided on boundary and mixed values",
    note="Text that std::stoi/stod reject ends the program by exception; that behaviour is the standard library's.")

prop("C19", "Output files contain exactly the generated graph",
    "The edge list file holds '<number of vertices> <number of edges>', an empty line, and then one line 'u v' per edge in the order of the edge list; the coordinate file holds one line 'radius angle' per vertex in order, with at least 17 decimals or significant digits. "
    "The dot file is an undirected graph with one statement per vertex (its weight as label, its position as comma separated coordinates) and one statement 'u -- v' per edge. "
    "An output file that cannot be opened ends the run with an error instead of being skipped.",
    ["inputs"], "all graphs, coordinates and dimensions",
    "No test reads the written files back.", CLIF + [GS + "Generator.cpp"], [("edge list", CLIF[0]), ("edge list and coordinates", CLIF[1]), ("dot export", GS + "Generator.cpp saveDot")],
    check="extraction of all output operations as terms with their loop domains, rendered and compared on generated graphs",
    note="Write errors after a successful open (disk full) are not part of the property: the code does not check them.")

prop("C20", "Debug checks never influence the generated graph",
     "Code that only builds with assertions contain (assertion conditions and NDEBUG-guarded statements, in both libraries and both command line tools) writes only state that nothing but such code reads, and no value it computes is used by other code. "
     "It draws no random numbers, reports no edges, writes no output, and neither returns, throws nor otherwise changes which other statements run, except that a failed check aborts the program. "
     "Builds without assertions leave nothing else out and add nothing, except that in the threshold model they skip the visit of far cell pairs, which cannot be connected.",
     ["configurations", "inputs"], "debug and release builds, all inputs",
     "The tests are only ever run in one configuration, so a difference between debug and release builds stays invisible.",
     [G + "SpatialTree.inl", H + "HyperbolicTree.inl", HS + "RadiusLayer.cpp"], [("debug checks of the GIRG tree", G + "SpatialTree.inl"), ("debug checks of the hyperbolic tree", H + "HyperbolicTree.inl")],
     check="ghost-code non-interference: instructions of debug and release builds matched by signature, then write, value, call and control effects of the unmatched ones on the LLVM IR",
     note="Non-interference only: that no assertion ever fails is not claimed. Both builds are taken without optimisation.")

prop("C23", "Every vertex is filed in the layer and cell its weight and position say",
     "A GIRG vertex of weight w is filed in weight layer floor(log2(w/w0)), w0 being the smallest weight, in the cell of its position on level max(0, (floor(log2(W/w0^2)) - layer - 1) / D); a hyperbolic point of radius r (0 <= r < R) in radius layer floor(R - r), at most ceil(R) - 1, in the cell of its angle on the level at which the inner borders of its layer and of the outermost layer are compared. "
     "There are floor(log2(wn/w0)) + 1 weight layers, wn being the largest weight. "
     "The table of first positions covers all cells of all layers in the order of the sorted vertices, empty cells included, for every number of threads.",
     ["inputs", "schedules"], "all weights, positions, radii, angles, dimensions 1 to 5 and thread counts",
     "Border cases (weights at powers of two of w0, radius close to 0, empty cells at the border of two threads' parts) hardly ever appear in sampled tests.",
     [G + "SpatialTree.inl", HS + "RadiusLayer.cpp", H + "RadiusLayer.h"], [("filing of weight layers", G + "SpatialTree.inl buildPartition"), ("filing of radius layers", HS + "RadiusLayer.cpp buildPartition")],
     check="term extraction from SSA (stores, recurrences, table look-ups), identity test against the required terms",
     note="Arithmetic is exact; rounding of the logarithm at layer borders is outside of the claim. The radix sort is assumed to sort by the key it is given.")

prop("C24", "Public types and exported functions are the same with and without assertions",
     "The size of every class that a public header defines and the offset, type and order of its data members are the same whether a program is compiled with or without assertions (NDEBUG), apart from the tree samplers instantiated with a call-back of one translation unit. "
     "The libraries export the same functions in both configurations.",
     ["configurations"], "debug and release builds of library and client in any combination",
     "The tests are always compiled in the same configuration as the library.",
     [H + "Point.h", G + "Node.h", G + "WeightLayer.h", H + "RadiusLayer.h"], [("conditional members", H + "Point.h"), ("members of layers", H + "RadiusLayer.h")],
     check="comparison of record layouts and external definitions computed by the compiler front end for both configurations",
     note="hypergirgs::Point is a recorded finding: its debug-only members change its size.")

prop("C27", "Degree searches end only within their tolerance",
     "The search behind the weight scaling ends only at a constant c for which the estimator's own degree function was evaluated and found within 0.02 of the desired degree, and the factor returned is c^d (estimator of the threshold model) or c^(1/alpha) (general estimator) for this very c. "
     "The NetworKit radius for temperature 0 is a radius R for which (2/pi) xi^2 n (e^(-R/2) + e^(-alpha R) (alpha R/2 (pi/(4 alpha^2) - (pi-1)/alpha + pi - 2) - 1)) with xi = 2 alpha/(2 alpha - 1) is within 0.01 of the requested degree; the search has no other way to end.",
     ["inputs"], "all weights, degrees, dimensions, alphas and sizes",
     "Tests compare a few scaled graphs with wide tolerances; whether the search stops early depends on the input.",
     [GS + "WeightScaling.cpp", HS + "Generator.cpp"], [("exponential search", GS + "WeightScaling.cpp exponentialSearch"), ("radius search", HS + "Generator.cpp searchTargetRadiusForColdGraphs")],
     check="loop exit conditions and recurrences from SSA as terms over the last iteration; implication of the tolerance decided on term models",
     note="Termination is not claimed. Real-number semantics.")

prop("C28", "The radix sort orders elements by key, for every key width and thread count",
     "intsort::intsort leaves the elements of a vector, range or array in ascending order of their keys, losing and duplicating none, for every number of elements, every thread count and every bound max_key with keys up to and including it: the threads' chunks tile the elements; the digits of the passes, the most significant first and then from the least significant on, order the keys as the keys themselves and stay within the counters; each pass reads what the pass before wrote and distributes by the digit counted before over the same elements into counters that were reset. "
     "The first element of a digit is stored behind all elements of smaller digits and of the same digit in earlier threads; the blocks sorted independently are those of the first pass and cover all elements; the buffer becomes the result exactly if the last pass ended in it.",
     ["inputs", "schedules"], "all keys, bounds, sizes and team sizes",
     "The library sorts cells numbered 0 to a few thousand in tests; the pass structure changes at 8, 16 and 24 bits, the chunks beyond 131072 elements per thread, so most key widths are never exercised.",
     ["source/girgs/include/girgs/IntSort.h", "source/hypergirgs/include/hypergirgs/IntSort.h"], [("radix sort", "source/girgs/include/girgs/IntSort.h IntSortImpl::sort, move_to_queues"), ("copy", "source/hypergirgs/include/hypergirgs/IntSort.h")],
     check="passes, counters, prefix sums and ranges recognised in SSA; digits, ranges and buffers as terms, compared over key pairs at the digit borders of every bound 2^k, 2^k-1; the prefix sum as a recurrence against its definition",
     note="Elements with unsigned 32-bit keys and radix width 8. Races and barriers are C02's and C03's. One element per pass is followed: that the loop over the elements visits each once is its trip count and stride.")

prop("C29", "Profiling never influences the generated graph",
     "The profiling flag of the tree samplers (SpatialTree, HyperbolicTree and the functions that create them) and the times measured change nothing but what is printed. "
     "Neither decides which random numbers are drawn, how many threads work, what is computed, stored, sorted or reported as an edge, or whether a statement other than output and timing is executed.",
     ["inputs"], "all inputs, both settings of the flag, all durations",
     "No test turns profiling on.",
     ["source/girgs/include/girgs/SpatialTree.inl", "source/hypergirgs/include/hypergirgs/HyperbolicTree.inl", "source/hypergirgs/source/RadiusLayer.cpp"],
     [("profiling flag", "source/hypergirgs/include/hypergirgs/HyperbolicTree.inl m_profile"), ("timers", "source/girgs/include/girgs/ScopedTimer.h")],
     check="interprocedural taint and control dependence from the flag and the clock over unoptimised IR with points-to; write effects of what depends on them against the reads of all other code",
     note="The class ScopedTimer itself is trusted to write only its members, its output variable and standard output. Written standard output is not the graph.")

prop("N01", "The expected average degree equals the requested one",
     "After scaling weights for a desired average degree, or computing a radius for one, generated graphs have that expected average degree up to the documented tolerance.",
     ["inputs"], "all parameters",
     "Statistical tests on few sizes with wide tolerance.",
     [GS + "WeightScaling.cpp", HS + "Generator.cpp"], [("degree estimators", GS + "WeightScaling.cpp")],
     na="A statement about the mean of a random graph and the convergence of a numeric search over floating-point sums: no static argument in reach bounds it. The closed forms and the use of the factor are decided in C15 and C26.")

prop("N02", "Generation takes expected linear time",
     "The expected running time of edge generation is linear in the number of vertices plus edges.",
     ["inputs"], "all parameters", "Tests do not measure asymptotics.",
     [G + "SpatialTree.inl", H + "HyperbolicTree.inl"], [("cell-pair recursion", G + "SpatialTree.inl")],
     na="An expectation over random inputs of a data-dependent recursion; no static cost analysis in reach bounds the expected number of cell pairs.")

prop("N03", "The parameter searches terminate for all admissible inputs",
     "Scaling weights and computing a radius terminate for every admissible degree, size and exponent.",
     ["inputs"], "all parameters", "Tests use benign parameters.",
     [GS + "WeightScaling.cpp", HS + "Generator.cpp"], [("exponential and binary search", GS + "WeightScaling.cpp")],
     na="Termination depends on monotonicity and continuity of floating-point sums over the caller's weights; it is false for unreachable degrees and not decidable by a ranking argument on the source.")
