#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    assert len(title) <= 80, (id, len(title))
    P.append(d)

I = "include/dataframe/"
F = I + "functional/"

# ------------------------------------------------------------------ parallel execution
p("C01", "Parallel execution equals sequential execution under every schedule",
  "Running an item-wise job over a series on any requested number of cores (>= 1) gives exactly the series the job gives when applied to the whole series at once: the same values bit for bit, in the same order, with the same count, item size and dimension. The job is handed the items in consecutive parts, in input order, whose sizes differ by at most one, with the input's item size and dimension, and the input series is left untouched. This holds for every thread schedule, and when several parallel executions run at the same time or inside one another.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of the worker threads, every series, every core count (also larger than the number of items), every number of concurrent or nested parallel executions",
  "No test calls parallel execution at all; a real run shows one schedule out of very many, and a race, a mix-up of parts or a wrong order of assembly only shows under particular ones.",
  [F + "utils/parallel_execute.h", F + "utils/partition_n.h", F + "utils/concat.h", "examples/parallel-postprocess/main.cxx"],
  [("input split into ordered parts", F + "utils/partition_n.h"), ("one task per part; results collected in order of parts", F + "utils/parallel_execute.h"), ("assembly of the partial results", F + "utils/concat.h")],
  ["return value of the parallel execution", "arguments the job receives"])
p("C02", "A failing parallel job is reported, never hidden or half-assembled",
  "If jobs of a parallel execution fail, the call fails and never returns a partial or mixed result; the failure reported is the one of the earliest failing part in input order: a standard exception is reported as a standard exception whose text contains the job's own message, anything else thrown arrives unchanged. A job whose result has not one item per item of its part, or whose item size differs from the other parts', is a failure as well, and running out of memory or of threads gives either an error or the complete correct result. When the call returns or throws, no job is still running and nothing it allocated is leaked.",
  ["schedules", "fault_sequences", "inputs"],
  "every set of failing parts and kinds of failure, every point at which memory or threads run out, every interleaving of failing and succeeding jobs",
  "No test makes a parallel job fail; which failure wins, and what still runs when the caller sees it, depend on the schedule and on where the fault falls.",
  [F + "utils/parallel_execute.h", F + "utils/concat.h"],
  [("result-size check and wrapping of job exceptions", F + "utils/parallel_execute.h"), ("futures collected in order, joined on unwinding", F + "utils/parallel_execute.h"), ("item size check while assembling", F + "utils/concat.h")],
  ["exception or value delivered to the caller", "jobs still active after the call"])
p("C03", "All parts of a parallel execution run concurrently, each exactly once",
  "A parallel execution of a series of c items on n cores hands out exactly min(n, c) jobs, each item to exactly one job, exactly once. All these jobs are in progress at the same time if none finishes early: jobs that wait for each other, or for all to have started, complete, and no job waits for a slower one. The call finishes once all its jobs have finished, whatever the order and delays in which they do.",
  ["schedules", "configurations", "inputs"],
  "every schedule, every core count and item count, every pattern of job durations and stalls",
  "Progress under interdependent or stalled jobs needs a scheduler and a clock one controls; a plain test with jobs that wait for each other either hangs or passes by luck.",
  [F + "utils/parallel_execute.h", F + "utils/partition_n.h"],
  [("a dedicated thread per part (async launch)", F + "utils/parallel_execute.h"), ("number and size of parts", F + "utils/partition_n.h")],
  ["start/finish events of the jobs", "simulated finishing time of the call"])

# ------------------------------------------------------------------ concurrent use
RO = "The arguments are not modified."
p("C04", "Numeric operations on shared series are safe from any thread",
  "Any number of threads may at the same time apply the numeric operations (element-wise arithmetic, negation, scaling, weighted sums, min/max, comparison, normalisation, norms, dot and cross products, transposition, determinants, inverses, eigen values and vectors, statistics, normals, areas, line-of-sight projection) to the same series or to different ones, whether these fit the operation or not. Each call gives exactly the result, or the error, it gives when it runs alone, bit for bit, whatever ran before or runs beside it. " + RO,
  ["schedules", "histories", "inputs"],
  "every interleaving of concurrent calls, every mix and order of operations and arguments on each thread",
  "The unit tests are single threaded and call each operation a few times in a fixed order, so hidden shared or leftover state in an operation is invisible to them.",
  ["src/functional/math", "src/functional/algebra", "src/functional/stats", "src/functional/geo", F + "math/equals.h", "src/view"],
  [("operations work on local state only", "src/functional/*"), ("work matrices and iteration state of the eigen solver are per call", "src/functional/algebra/eigen.cxx")],
  ["return values and exceptions of each call"])
p("C05", "Functional and collection operations are safe on shared series",
  "Any number of threads may at the same time traverse, map, reduce, filter, reject, cut, find, check, sort, split, partition, zip, unzip, concatenate, merge, or build grids from the same series, whether these fit the operation or not, with callbacks of their own, also with callbacks that call such operations themselves. Each call gives exactly the result, or the error, it gives when it runs alone, whatever ran before or runs beside it. " + RO,
  ["schedules", "histories", "inputs", "programs"],
  "every interleaving of concurrent calls, every mix, order and nesting of operations and callbacks",
  "The unit tests are single threaded and never re-enter an operation from a callback, so hidden shared or leftover state is invisible to them.",
  [F + "map.h", F + "reduce.h", F + "filter.h", F + "forEach.h", F + "find.h", F + "merge.h", F + "utils", F + "conditional/check.h", F + "geo/cartesian_grid.h"],
  [("indices and results are collected in local variables", F + "filter.h"), ("item access copies out of the series", I + "inline/Serie.hxx")],
  ["return values and exceptions of each call"])
p("C06", "Concurrent queries of a dataframe and its attributes are safe",
  "Any number of threads may at the same time look up series in one dataframe, ask whether it contains a name or a series, find the name of a series, and list, test and retrieve attributes through one shared manager or several managers over that dataframe. Each query gives exactly the answer it gives when it runs alone, the dataframe does not change, and a look-up of a missing name on a constant dataframe gives an invalid series every time.",
  ["schedules", "histories", "inputs"],
  "every interleaving of concurrent queries, every dataframe, every set of decomposers",
  "The unit tests query from one thread only; a cache, a lazily created entry or a shared buffer behind a query shows only under overlapping queries.",
  ["src/Dataframe.cxx", "src/attributes", "src/utils/nameOfSerie.cxx", I + "attributes"],
  [("constant look-ups do not insert", "src/Dataframe.cxx"), ("decomposers compute from the dataframe on every query", "src/attributes"), ("manager only iterates", "src/attributes/Manager.cxx")],
  ["answers of each query"])
p("C07", "Copies of series are independent values, also across threads",
  "A copy of a series, whether constructed, assigned, cloned, stored in a dataframe or a collection, or returned, equals its source in values, count, item size and dimension at the time of copying. From then on the two are independent: modifying one is never visible in the other, and different threads may modify and read their own copies at the same time without affecting each other. Assigning a series to itself changes nothing.",
  ["schedules", "histories", "inputs"],
  "every history of copying and modifying, every assignment of copies to threads, every interleaving",
  "Tests copy a series once and look at it once, in one thread; sharing between copies shows only after later modifications or under concurrent ones.",
  ["src/Serie.cxx", I + "Serie.h", "src/Dataframe.cxx"],
  [("deep copy in copy construction and assignment", "src/Serie.cxx"), ("clone", "src/Serie.cxx")],
  ["all observers of every copy after each step"])

# ------------------------------------------------------------------ failure atomicity
p("C08", "An operation that fails leaves its inputs intact and leaks nothing",
  "If an operation that computes a new result from series or a dataframe fails, because memory runs out at any point or because a callback throws, the failure reaches the caller, and none of the operation's inputs has changed. Nothing the failed call allocated stays allocated, however often it fails. The same call made again without the fault gives exactly the result it would have given without the failed attempts.",
  ["fault_sequences", "inputs", "histories"],
  "every operation, every allocation within it that may fail, every invocation of the callback that may throw, any number of failed attempts",
  "No test injects a failing allocation, and error tests only cover argument checks made before any work starts.",
  ["src/functional", F, "src/view", "src/attributes"],
  [("results are built in local values released on unwinding", "src/functional/*"), ("work arrays of the eigen solver", "src/functional/algebra/eigen.cxx")],
  ["exception at the caller", "inputs before and after", "live allocations before and after"])
p("C09", "A failed modification of a series leaves it exactly as it was",
  "A modification of a series (assignment, changing its count, setting an item or a scalar) either takes full effect or, when it fails because memory runs out or the argument is not acceptable (index out of range, wrong item size), leaves values, count, item size and dimension exactly as before. After any history of successful and failed modifications the series equals the plain array model of the successful ones. Reading an item never changes the series, and reading an item or a scalar out of range is refused.",
  ["histories", "fault_sequences", "inputs"],
  "every history of modifications with allocations failing at any point",
  "Tests set a few items and never fail an allocation; a half-applied modification needs a fault between two updates.",
  ["src/Serie.cxx", I + "inline/Serie.hxx"],
  [("order of allocation and update", "src/Serie.cxx"), ("index and size checks", "src/Serie.cxx, " + I + "inline/Serie.hxx")],
  ["all observers after each step"])
p("C10", "A failed modification of a dataframe leaves it exactly as it was",
  "A modification of a dataframe (add, set, create, delete, clear, change of count) either takes full effect or, when it fails because memory runs out, leaves the set of names and every stored series exactly as before. After any history of successful and failed modifications the dataframe holds exactly what a plain map from names to series would hold: adding under an existing name replaces that series only, deleting a missing name does nothing, and a stored series is independent of the series that was passed in. Look-ups on a constant dataframe, presence tests and name searches agree with that map.",
  ["histories", "fault_sequences", "inputs"],
  "every history of modifications and queries with allocations failing at any point",
  "One test adds two series; none replaces, deletes, fails an allocation or looks at the state after a failure.",
  ["src/Dataframe.cxx", I + "Dataframe.h", "src/utils/nameOfSerie.cxx"],
  [("insertion and replacement in the map", "src/Dataframe.cxx"), ("change of count over all series", "src/Dataframe.cxx")],
  ["all names and series after each step"])

# ------------------------------------------------------------------ memoize
p("C11", "Memoization is transparent over every history of calls and failures",
  "A memoized function returns for every series exactly what the wrapped function returns for that series; series that differ in any value (bit for bit, so also in NaNs and signed zeros), in item size, in count or in dimension never share a result. The wrapped function is evaluated once per distinct series, and again after the cache was cleared; results handed out and arguments passed in may be modified later without affecting the cache. If an evaluation throws or memory runs out, the failure reaches the caller, nothing wrong is remembered, and later calls are right.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of calls, cache clears, copies and failures, every set of colliding or nearly equal arguments",
  "One test calls a memoized function twice with one series; keys that collide, NaNs, clears, copies and failures between calls are never exercised.",
  [F + "utils/memoize.h"],
  [("key built from the argument", F + "utils/memoize.h"), ("lookup before, insertion after a successful evaluation", F + "utils/memoize.h")],
  ["results", "number of evaluations per argument"])
p("C12", "One memoized function may be shared by several threads",
  "Several threads may call one memoized function (or copies of it) at the same time, also recursively from inside the wrapped function, and while others clear its cache. Every call returns what the wrapped function returns for its argument, a failing evaluation fails only the calls that made it, and no call blocks forever.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of calls, clears, recursive calls and failing evaluations",
  "The only test is single threaded; a lost or torn cache entry or a deadlock needs overlapping calls.",
  [F + "utils/memoize.h"],
  [("cache shared by all callers of one object", F + "utils/memoize.h")],
  ["results of each call", "progress of each thread"])

# ------------------------------------------------------------------ entropy / IO
p("C13", "Seeded random series are reproducible; unseeded ones use fresh entropy",
  "Two random series requested with the same seed, count, item size and bounds are identical bit for bit, whatever was generated before or is generated beside them on any thread, and every value lies between the bounds. When no seed is given, each request draws its own fresh seed from the system, so requests with different entropy give different series, while requests that happen to get the same entropy give the same series. If the system's entropy source fails, the failure reaches the caller.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "every interleaving and history of requests, every outcome of the entropy source including failure",
  "No test covers random series; the entropy source is not under a test's control and reproducibility must hold under any interleaving.",
  ["src/functional/math/random.cxx", F + "math/random.h"],
  [("generator created per call from the seed", "src/functional/math/random.cxx"), ("default seed from the system's entropy source", F + "math/random.h")],
  ["generated values", "draws from the entropy source"])
p("C14", "Writing a series to a stream goes to that stream and only there",
  "Inserting a series, a collection of series, a list of numbers or a list of strings into an output stream writes all of its numbers or strings, in order, to that stream and to no other. Threads writing to different streams at the same time do not disturb each other. If the stream fails part way, the failure is visible in the stream's state (or as the exception the stream is set up to throw), what was accepted before is a prefix of the full output, and the data written is unchanged. Printing (dumps of series and dataframes, prints of series and lists of numbers, messages) writes all of it, in order, to the standard output or error stream it is meant for and nowhere else, also for scalar and empty series, leaves that stream's format as it was, and never throws because that stream fails.",
  ["schedules", "fault_sequences", "inputs"],
  "every stream failing after any number of characters, every interleaving of writers to different streams",
  "Tests print to the console only and look at nothing; a stream that fails or is captured never occurs.",
  [I + "inline/Serie.hxx", I + "types.h", F + "utils/print.h", I + "utils/utils.h", "src/Serie.cxx", "src/Dataframe.cxx"],
  [("stream insertion of series", I + "inline/Serie.hxx"), ("stream insertion of arrays and string lists", I + "types.h")],
  ["characters received by every stream", "stream state"])

# ------------------------------------------------------------------ attributes
p("C15", "Attribute queries always reflect the current dataframe",
  "After any history of changes to a dataframe and of successful, failed and repeated queries, a manager of decomposers answers exactly as a new manager built on a fresh copy of the dataframe's present content. It lists, for an item size, the series of that item size and the manager's dimension and everything its decomposers derive: each component of every other series, the coordinates of the positions, eigen values and vectors of symmetric matrices, normals, areas and valences of the mesh, user-defined attributes. While the series hold items and the meshes are consistent (indices within the positions), every attribute it lists for an item size can be retrieved, is reported as contained, has that item size and one item per item of its source (for normals and areas: per cell; for valences: per vertex); names not listed are reported as not contained; components, coordinates, valences, eigen values and eigen vectors carry the values of the source series. Retrieving normals, areas or valences of a mesh that refers to positions that do not exist is refused. A query that runs out of memory or whose user-defined callback throws fails without changing any later answer.",
  ["histories", "fault_sequences", "inputs"],
  "every history of dataframe changes and queries with failing allocations and callbacks, every set of decomposers",
  "Tests query freshly built dataframes a single time; an answer remembered past a change or past a failed query never shows.",
  ["src/attributes", I + "attributes", "src/Dataframe.cxx"],
  [("names and series computed from the dataframe on each query", "src/attributes/Manager.cxx"), ("per-decomposer naming and extraction rules", "src/attributes/*.cxx")],
  ["names, contains and series answers after each step"])
p("C16", "Each decomposer handed to a manager is destroyed exactly once",
  "A manager owns the decomposers it accepted: each is destroyed completely and exactly once, when the manager is cleared or destroyed, and is never used after that, also if copies of the manager can be made. If accepting a decomposer fails because memory runs out, the manager is unchanged and that decomposer still belongs to the caller. After clearing, a manager has no decomposers, lists only the dataframe's own series, and accepts new decomposers.",
  ["histories", "fault_sequences"],
  "every history of adding, clearing, querying and destroying with allocations failing at any point",
  "Tests never clear a manager and do not observe destruction; leaks and double destruction need a history and a look at lifetimes.",
  ["src/attributes/Manager.cxx", I + "attributes/Manager.h", I + "attributes/Decomposer.h"],
  [("destructor and clear", "src/attributes/Manager.cxx"), ("polymorphic destruction", I + "attributes/Decomposer.h")],
  ["constructions and destructions of observed decomposers", "live allocations"])

# ------------------------------------------------------------------ callbacks
p("C17", "Callbacks see each item exactly once, in order, and may stop by throwing",
  "Traversals with a callback (for each, map, apply, reduce, filter, reject, cut, partition, check, find, find all; over one series or several together) call it with each item's value and index exactly once, in increasing index order, from the calling thread, a find stopping at the first match; the result is the one those answers determine. If the callback throws at some item, or the series' counts do not agree, that very exception (or the mismatch error, before any call) reaches the caller, no further item is visited and the series are unchanged. An empty series leads to no call at all and to a normal return.",
  ["fault_sequences", "inputs", "schedules"],
  "every traversal, every item at which the callback throws, every mix of item sizes and counts, traversals on several threads at once",
  "Tests use pure callbacks that never fail and look at the results only.",
  [F + "forEach.h", F + "map.h", F + "reduce.h", F + "filter.h", F + "find.h", F + "utils/reject.h", F + "utils/partition.h", F + "conditional/check.h"],
  [("a single loop over the indices in each traversal", F + "*.h"), ("count agreement is checked first", I + "utils.h")],
  ["the sequence of callback invocations", "exception at the caller"])
p("C18", "Pipelines and compositions run their stages in order, once per use",
  "A pipeline applied to an input calls its stages once each, in order, each on the previous one's result, and gives the last result; a composition does the same from its last function to its first. If a stage throws, that exception reaches the caller and no later stage runs. Pipelines, compositions and the reusable operations made from callbacks own what they capture, can be copied and used any number of times, also after a failure and from several threads at the same time, with the same results each time.",
  ["schedules", "fault_sequences", "histories", "programs"],
  "every pipeline of stages, every stage that fails, every history of uses and copies, every interleaving of concurrent uses",
  "Tests run each pipeline once, in one thread, with stages that do not fail and outlive it.",
  [F + "pipe.h", F + "utils/compose.h", F + "macros.h", F + "reduce.h", F + "filter.h"],
  [("recursive application of stages", F + "pipe.h"), ("nested composition objects", F + "utils/compose.h"), ("captured callbacks", F + "macros.h")],
  ["sequence of stage invocations", "results and exceptions"])

p("C19", "Vectors and matrices are independent values",
  "A vector or matrix (view) made from an array or copied from another one holds its own numbers. The in-place operations of a vector (normalise, mult by a number, mult, add and sub with a vector of the same length, also with itself) do to it what plain arithmetic does to its numbers, up to rounding, change nothing else and give that vector back, so that they can be chained. Reading operations (norm, dot, element access, text, trace, symmetry, packed array, transpose, products) give what plain arithmetic gives and change nothing; products of sizes that do not fit are refused. After any history of successful and failed operations every vector and matrix holds what a plain array would hold; an operation that runs out of memory leaves all of them as they were and leaks nothing. Threads may at the same time read the same objects and change their own.",
  ["histories", "fault_sequences", "schedules", "inputs"],
  "every history of operations with allocations failing at any point, every interleaving of threads that share operands",
  "No test uses these classes directly; only determinants of a few matrices pass through them.",
  ["src/view", I + "view"],
  [("in-place transformations", "src/view/Vector.cxx"), ("storage and products of matrices", "src/view/Matrix.cxx")],
  ["numbers in every vector and matrix after each step", "results and exceptions"])

p("C20", "Nothing accumulates, however often a history is repeated",
  "A history of calls (making, copying, modifying and destroying series, dataframes, managers, vectors and matrices; numeric and functional operations, queries, parallel executions, memoized functions, pipelines, random series, output to streams) may be repeated any number of times, from one thread or from several, also if the same calls fail in every repetition because memory or threads run out or a callback throws. Every repetition gives what the first one gave (the same results bit for bit, the same errors), and once the objects it made are destroyed it has given back its memory: repetitions never need more and more memory.",
  ["histories", "fault_sequences", "schedules", "inputs"],
  "every history of successful and failed calls, repeated any number of times, on every schedule",
  "Each test makes each call once or twice and never looks at the memory that stays behind; what is left over by one call in a hundred repetitions is invisible to it.",
  ["src", I + "functional", I + "attributes", I + "view", I + "inline"],
  [("work arrays and temporaries", "src/functional/*"), ("ownership of decomposers", "src/attributes/Manager.cxx"), ("captured callbacks and cached results", F + "*"), ("jobs and their results", F + "utils/parallel_execute.h")],
  ["results and exceptions in every repetition", "live allocations after every repetition"])

# ------------------------------------------------------------------ pure functions: not claimed
pure = "The tests compare a handful of hand-computed values; the property speaks about every input."
p("N01", "Eigen decomposition reconstructs every symmetric tensor",
  "For every symmetric tensor, the eigen vectors are orthonormal, the eigen values are real and in descending order, and together they reconstruct the tensor to rounding error.",
  ["inputs"], "every finite symmetric tensor in 2D and 3D", pure, ["src/functional/algebra/eigen.cxx"], [("Jacobi-type solver", "src/functional/algebra/eigen.cxx")])
p("N02", "Matrix identities hold for inverse, determinant and transpose",
  "The inverse of every invertible item times the item is the identity to rounding error, transposition is an involution, and determinants agree with these.",
  ["inputs"], "every finite matrix item", pure, ["src/functional/algebra/inv.cxx", "src/functional/algebra/det.cxx", "src/functional/algebra/transpose.cxx", "src/view/Matrix.cxx"], [("closed forms per item size", "src/functional/algebra/*.cxx")])
p("N03", "Selection and its complement together hold every item exactly once",
  "For every predicate, the kept and the rejected items of a series together are exactly its items, each once, in their original order.",
  ["inputs"], "every series and predicate", pure, [F + "filter.h", F + "utils/reject.h", F + "utils/partition.h"], [("index collection", F + "filter.h")])
p("N04", "Splitting and joining series are inverse to each other",
  "Zipping then unzipping, and splitting then concatenating, give back the original series; merging keeps every item once in the documented order.",
  ["inputs"], "every series and split", pure, [F + "utils/zip.h", F + "utils/unzip.h", F + "utils/partition_n.h", F + "utils/concat.h", F + "merge.h"], [("index arithmetic", F + "utils/*.h")])
p("N05", "Statistics agree with their definitions",
  "Mean, covariance, quantiles, quartiles, outlier limits and histogram bins agree with their textbook definitions for every series.",
  ["inputs"], "every series", pure, ["src/functional/stats"], [("closed formulas", "src/functional/stats/*.cxx")])
p("N06", "Geometry of cells is right",
  "Normals have unit length and follow the right-hand rule, and areas and valences agree with the mesh, for every mesh of non-degenerate cells.",
  ["inputs"], "every mesh", pure, ["src/functional/geo", "src/attributes/Valence.cxx"], [("cross products of edges", "src/functional/geo/normals.cxx")])
p("N07", "Element-wise arithmetic follows the algebra of real vectors",
  "Sums, differences, products, quotients, scaling and weighted sums act component by component on every pair of compatible series.",
  ["inputs"], "every tuple of compatible series", pure, ["src/functional/math"], [("component loops", "src/functional/math/*.cxx")])
p("N08", "Arguments that do not fit are refused",
  "Operations that need equal counts, matching item sizes or a valid series refuse arguments that do not fit with an error and accept all that do.",
  ["inputs"], "every argument tuple", pure, [I + "utils.h", "src/functional"], [("checks at entry", I + "utils.h")])
p("N09", "Comparison of series is an equivalence and respects its tolerance",
  "Equality of series is reflexive, symmetric and decided by values, item size and count, and approximate equality by the stated tolerance.",
  ["inputs"], "every pair of series", pure, [F + "math/equals.h"], [("component comparison", F + "math/equals.h")])
p("N10", "Grids cover their box in the documented order",
  "A grid of given size over a box has the requested number of points, in the documented order, with the box's corners at its ends.",
  ["inputs"], "every size and box", pure, [F + "geo/cartesian_grid.h"], [("triple loop", F + "geo/cartesian_grid.h")])
p("N11", "Sorting gives an ordered permutation",
  "A sorted series holds exactly the items of the original, ordered by the comparison that was given.",
  ["inputs"], "every series and strict weak order", pure, [F + "utils/sort.h"], [("std::sort on extracted items", F + "utils/sort.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
