#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "No Voronoi neighbour is ever missed in a completed cell",
  "For every point set inside the open unit cube and every choice of parameters, the row returned for a point contains every other point whose Voronoi cell (clipped to the unit cube) shares a face of non-negligible area with it, for every cell whose computation was not reported as failed. This holds for float and double coordinates and for any point distribution in general position, including strongly clustered, anisotropic, wall-hugging and nearly degenerate ones. With sufficient k and capacity parameters it holds for every point of the set.",
  ["inputs", "configurations"], "every point set in (0,1)^3, precision, k, grid resolution and capacity setting",
  "The repository tests compare a few fixed point sets at a few settings with voro++; they never see clustered sets, cells reaching the walls at other resolutions, large k, or double precision.",
  ["src/cc.ipp", "src/knn.ipp", "src/boundary.ipp", "src/planes.ipp", "src/sradius.ipp", "src/votess.ipp"],
  [("convex cell clipping by successive bisectors", "src/cc.ipp cci::compute"), ("security radius stop", "src/sradius.ipp"), ("grid kNN candidates", "src/knn.ipp")],
  ["return value of votess::tesellate", "reordered point set"])

p("C02", "Completed rows list only true Voronoi neighbours and are symmetric",
  "For every point whose cell was completed within the capacity limits, the returned row lists no point that is not a Voronoi neighbour (up to faces that are negligible at the precision used). Consequently, when all cells are completed the neighbour relation is symmetric: j is in the row of i exactly when i is in the row of j, except for negligible faces. With ample parameters every cell of a set in general position is completed.",
  ["inputs", "configurations"], "every point set, precision and parameter setting for which the cell is completed",
  "The repository tests only check that expected neighbours are contained in the result; returning every candidate would pass them.",
  ["src/cc.ipp", "src/boundary.ipp", "src/planes.ipp"],
  [("removal of candidates whose plane no longer carries a vertex", "src/cc.ipp"), ("dual triangle boundary walk", "src/boundary.ipp")],
  ["return value of votess::tesellate"])

p("C03", "The result is a well-formed neighbour structure for any valid input",
  "For every valid point set of any size (empty and single-point sets included) and any accepted parameter values, the result has exactly one row per point; each row holds indices of existing points, never the point itself and never the same point twice, ordered by non-decreasing distance. The offset table starts at zero, never decreases and ends at the number of stored neighbours, and row views agree with it.",
  ["inputs", "configurations"], "every valid point set incl. tiny, coincident, lattice, collinear ones, and every accepted parameter value incl. k larger than the set",
  "Tests use sets with more points than k and never inspect self references, duplicates, order or the offset table.",
  ["src/votess.ipp", "src/dnn.ipp", "src/knn.ipp", "src/cc.ipp"],
  [("assembly of the jagged result", "src/votess.ipp tmpnn_fill/tmpnn_getdnn"), ("row views", "src/dnn.ipp")],
  ["dnn list/offs members", "dnn rows"])

p("C04", "Thread count, chunking and scheduling never change the result",
  "For a given point set and algorithmic parameters, the returned structure, the reordered points and the failure summary are identical, bit for bit, for every number of CPU threads (more threads than points included), for chunking switched on or off with any chunk size (equal to, dividing, not dividing or exceeding the number of points), and for every interleaving of the workers.",
  ["schedules", "configurations", "inputs"], "every thread count, chunk size and interleaving",
  "Tests run one default thread count, never enable chunking and sample one schedule.",
  ["src/votess.ipp"],
  [("static partition of rows among threads; per-row scratch slices", "src/votess.ipp __cpu__tesellate"), ("chunk loop", "src/votess.ipp __cpu__tesellate")],
  ["return value of votess::tesellate under perturbed thread schedules"])

p("C05", "Grid resolution and input order do not affect which points are neighbours",
  "For points in general position, the set of neighbours of each point, identified by its coordinates, is the same for every grid resolution (from a single cell to far more cells than points) and for every permutation of the input array. The grid is an acceleration structure only.",
  ["inputs", "configurations"], "every permutation of the input and every grid resolution",
  "Tests use a handful of resolutions and one order per data set and compare by containment only.",
  ["src/knn.ipp", "src/xyzset.ipp"],
  [("shell search with conservative stop distance", "src/knn.ipp"), ("cell binning", "src/xyzset.ipp sort")],
  ["return values of repeated votess::tesellate calls"])

p("C06", "Recompute mode delivers exact cells from any starting parameters",
  "With recompute enabled, however small the initial k and the capacity limits are, the rows returned are those of a run with ample parameters: every cell that can be completed at all (one bounded by no more planes than the implementation can number, about 250) is completed and no such row is left as an unfinished candidate list. Cells that were already complete are unchanged by recomputation.",
  ["inputs", "configurations"], "every point set, initial k >= 1 and every accepted pair of capacity limits",
  "No repository test enables recompute with parameters that make a first pass fail and then compares with the exact diagram.",
  ["src/votess.ipp", "src/cc.ipp"],
  [("doubling of k and capacities for unfinished cells", "src/votess.ipp __cpu__recompute"), ("per-cell state flags", "src/status.ipp")],
  ["return value of votess::tesellate with use_recompute=true"])

p("C07", "The point set is reordered, never altered, and stably grouped by grid cell",
  "After a call the caller's array is a permutation of what was passed in, bit-for-bit per point, in which points are grouped by grid cell in ascending cell number and keep their original relative order inside a cell. The cell number of a point and the per-cell ranges reported by the sort agree with its coordinates for every grid resolution and integer index type.",
  ["inputs", "configurations"], "every point set, grid resolution (above 255 included), index type and precision",
  "Tests check a few random sets with one integer type and small grids; stability, large cell numbers and exact multiset preservation are not checked.",
  ["src/xyzset.ipp"],
  [("least-significant-digit radix sort", "src/xyzset.ipp sort"), ("prefix sums of cell counts", "src/xyzset.ipp sort")],
  ["caller's xyzset after the call", "xyzset::sort return value"])

p("C08", "No memory error or undefined behaviour, whatever the input",
  "No call into the library reads or writes outside its objects, uses freed or uninitialised memory, or executes undefined arithmetic, for any point data (coordinates on, near or outside the cube, NaN, infinities, coincident points) and any parameter values. Parameter values that cannot be honoured are refused with an exception before any work is done.",
  ["inputs", "configurations"], "every bit pattern of coordinates and every parameter combination",
  "Tests run uninstrumented on benign inputs; out-of-bounds accesses that happen to hit mapped memory go unnoticed.",
  ["src/votess.ipp", "src/xyzset.ipp", "src/cc.ipp", "src/knn.ipp", "src/boundary.ipp", "src/dnn.ipp"],
  [("scratch arrays sized from k and the capacity limits, overflow checks before each append", "src/cc.ipp, src/votess.ipp"), ("cell index clamping", "src/xyzset.ipp")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions, shim accessor bounds"])

p("C09", "Computation is free of data races",
  "No two threads ever access the same memory without synchronisation when at least one writes, within one call for any number of workers, chunking and recompute included, nor between independent calls made concurrently on different point sets; concurrent calls give the same results as sequential ones.",
  ["schedules", "configurations"], "every interleaving of workers and of concurrent callers",
  "Tests run a single caller uninstrumented; races show up only as rare wrong rows.",
  ["src/votess.ipp", "src/cc.ipp", "src/knn.ipp"],
  [("disjoint scratch slices per row and disjoint per-point states", "src/votess.ipp"), ("shared cout suppression", "src/votess.ipp suppress::stdout")],
  ["ThreadSanitizer reports", "results of overlapping calls"])

p("C10", "Candidate search returns exactly the k nearest other points",
  "For every point, the candidates used to build its cell are exactly the k nearest other points of the whole set in non-decreasing distance order (ties in any order), whatever the grid resolution, the position relative to grid-cell walls and the k requested. A row returned for a cell that had to be abandoned for lack of capacity is this full candidate list, so it never loses a neighbour among them.",
  ["inputs", "configurations"], "every point set, k, grid resolution, precision; host and device variants",
  "No repository test compares the candidate lists with brute force; the downstream containment test tolerates missing far candidates.",
  ["src/knn.ipp", "src/heap.ipp", "src/xyzset.ipp"],
  [("expanding shells until the k-th distance is below the covered radius", "src/knn.ipp"), ("bounded max-heap", "src/heap.ipp")],
  ["rows of abandoned cells", "knn output arrays"])

p("C11", "The boundary of any removed disk of dual triangles is found exactly",
  "For every set of consistently oriented triangles forming a topological disk, in every order and with every rotation of each triangle's vertices, the boundary routine succeeds and returns exactly the closed oriented cycle bounding the disk, with all other entries unset. For triangle sets that have no single boundary cycle it terminates without touching memory outside its arrays.",
  ["inputs"], "every triangulated disk with up to the maximum number of planes, every ordering and rotation, all element types",
  "Tests enumerate a fixed list of generated small cases in one element type.",
  ["src/boundary.ipp"],
  [("incremental edge cancellation with retry of not-yet-adjacent triangles", "src/boundary.ipp compute")],
  ["returned status, head and cycle array"])

p("C12", "Heap routines order any pair of key/value arrays without losing entries",
  "For every length, offset, stride and key multiset (ties, infinities, denormals), sorting yields keys in non-decreasing order with each value still attached to its key and no entry lost, duplicated or moved outside the given range; heapify establishes the max-heap property below the given node.",
  ["inputs"], "every array content, length, base offset and stride; host and device variants",
  "Tests sort a few random arrays and check order; pairing, neighbours of the range and strided variants are not checked.",
  ["src/heap.ipp"],
  [("heapify/heapsort over a slice", "src/heap.ipp")],
  ["array contents before and after"])

p("C13", "The failure summary is honest",
  "With output enabled, each run prints exactly one summary whose counts equal the true number of cells in each condition: a cell is counted as not reaching its security radius exactly when none of its candidates is farther than twice the radius of its cell, overflow counts equal the number of cells abandoned for that capacity, and if the summary reports zero failures every returned row is exact. After recompute the summary describes the final rows.",
  ["inputs", "configurations"], "every point set and parameter setting, host and device, with and without recompute",
  "No repository test reads the summary.",
  ["src/votess.ipp", "src/status.ipp", "src/cc.ipp"],
  [("per-cell state bits", "src/status.ipp"), ("summary loop", "src/votess.ipp tesellate")],
  ["standard output of a run", "returned rows"])

p("C14", "Parameter store is faithful and isolated",
  "Every value written to a known parameter is read back unchanged for all integers, booleans and strings without spaces, unknown keys are refused with an exception without changing the store, values that cannot be converted raise an exception, a fresh store has the documented keys and usable defaults, and copies are independent. A tessellation call never changes the caller's parameters.",
  ["histories", "inputs"], "every sequence of writes, reads, copies and calls",
  "Tests write a few values once and read them back.",
  ["include/arguments.hpp"],
  [("string-backed map with typed conversion", "include/arguments.hpp vtargref/vtargs"), ("parameters passed by value", "src/votess.ipp")],
  ["values read back", "exceptions"])

p("C15", "Printed and saved results describe exactly the neighbour lists",
  "For every result and every signed index type, including results with empty rows at the beginning, in the middle, in succession or at the end, the printed form and the saved text file contain exactly one line per point, in order, with exactly that point's neighbours in order. Row views report the right size and give access to exactly those neighbours, making a result from a caller's arrays leaves those unchanged, saving replaces an earlier file, and saving to an unwritable path reports an error without disturbing anything.",
  ["inputs"], "every jagged array of neighbours",
  "No repository test prints or saves a result.",
  ["src/dnn.ipp"],
  [("walk over the flat list guided by the offsets", "src/dnn.ipp print/savetxt"), ("proxy rows", "src/dnn.ipp")],
  ["standard output", "saved file", "proxy size and elements"])

p("C16", "The GPU path computes the same result as the CPU path",
  "For every valid point set and parameter setting, asking for the GPU device gives the same rows and the same failure summary as the CPU device, for every work-group size and chunk size and however the work groups are scheduled; device code never accesses buffers out of bounds nor depends on uninitialised device memory. When no GPU is present the call warns on standard error and delivers the CPU result.",
  ["inputs", "configurations", "schedules"], "every point set, work-group size, chunk size and work-group schedule",
  "The test environment has no GPU: device kernels are never executed by the tests.",
  ["src/votess.ipp", "src/cc.ipp", "src/knn.ipp", "src/heap.ipp", "src/boundary.ipp"],
  [("SYCL kernels", "src/votess.ipp __gpu__tesellate"), ("CPU fallback", "src/votess.ipp tesellate")],
  ["return value for device::gpu", "shim accessor monitors"])

p("C17", "The Python module returns the library's results safely",
  "The Python module yields the same rows as the C++ library for the same data, and objects obtained from it stay valid for as long as Python holds them, in any order of release. Out-of-range indices raise IndexError, iterating over a result or a row visits each element exactly once, and bad arguments raise Python exceptions instead of crashing the interpreter.",
  ["inputs", "histories"], "every point list, parameter value, index and order of object destruction",
  "No repository test imports the Python module.",
  ["src/pybind11/pyvotess.cpp", "src/dnn.ipp"],
  [("pybind11 bindings and lifetime policies", "src/pybind11/pyvotess.cpp")],
  ["values, exceptions and crashes seen from the interpreter"])

p("C18", "The command line tool reports the library's result or a clean error",
  "For every well-formed input file and option set the tool prints exactly the neighbour lists the library computes for those points with the parameters the options name, in long and short form, and exits 0. A missing or malformed file or an unusable option value gives a message on standard error and a non-zero exit, never a crash, a hang or partial results presented as success.",
  ["inputs", "configurations"], "every input file and every combination of options",
  "No repository test runs the tool.",
  ["src/main.cpp"],
  [("option parsing", "src/main.cpp parse_args"), ("file reader", "src/main.cpp main")],
  ["standard output, standard error and exit status of clvotess"])

p("C19", "Standard output is left alone",
  "With output suppressed a call writes nothing to standard output, and in every case, including calls that end in an exception and calls that overlap in time, the caller's output stream afterwards has the same destination, error state and formatting (flags, precision, fill, locale) as before and keeps working. With output enabled the text goes to that same stream.",
  ["histories", "schedules", "fault_sequences"], "every sequence and overlap of calls, successful or failing",
  "Tests never look at the stream before and after a call, nor overlap calls.",
  ["src/votess.ipp"],
  [("scoped redirection of std::cout", "src/votess.ipp suppress::stdout")],
  ["std::cout buffer, state flags and captured text"])

p("C20", "Resource failures surface as exceptions and leave the caller's data intact",
  "If any memory allocation or thread creation fails at any point of a call, the failure reaches the caller as a C++ exception; the process is not terminated, no worker is left running, no memory is leaked, the caller's points are still a permutation of the originals and the next call succeeds with the correct result.",
  ["fault_sequences", "crash_points"], "every single allocation or thread-creation failure point of a call",
  "Tests never inject failures.",
  ["src/votess.ipp", "src/xyzset.ipp"],
  [("RAII containers, joined worker threads", "src/votess.ipp")],
  ["exceptions, process survival, point multiset, subsequent call"])

p("C21", "Every call terminates, even on degenerate input",
  "A call finishes within a bounded amount of work for every valid input and accepted parameters: coincident points, exact lattices, cospherical, coplanar and collinear sets, empty and single-point sets, recompute on cells that can never be completed, more threads than points. It never loops forever.",
  ["inputs", "configurations"], "every valid point set and accepted parameter setting",
  "Tests use random points only, where the retry and recompute loops always make progress.",
  ["src/boundary.ipp", "src/cc.ipp", "src/votess.ipp"],
  [("cycle length guard and swap retry bound", "src/boundary.ipp"), ("recompute stop conditions", "src/votess.ipp __cpu__recompute")],
  ["completion within a generous bound; worker passes counted"])

p("C22", "Geometric primitives are accurate and correctly oriented",
  "For every pair of distinct points the bisector is the plane equidistant from both, positive on the side of the first; for every triple of independent planes the intersection lies on all three to working precision, and axis-parallel planes without a common point give a finite result; the radius tracker keeps the largest squared distance and the stop test fires exactly when the candidate is farther than twice that radius.",
  ["inputs"], "every pair of points, triple of planes and sequence of updates, float and double",
  "Tests check a table of fixed cases.",
  ["src/planes.ipp", "src/sradius.ipp", "src/utils.ipp"],
  [("closed formulas", "src/planes.ipp"), ("branch-free maximum", "src/sradius.ipp")],
  ["returned values against extended-precision evaluation"])

p("C23", "Calls are independent of history",
  "The result of a call depends only on its arguments: repeating it gives an identical result, running it after any sequence of other calls (other sizes, parameters, devices, types, failed calls) gives the result a fresh process gives, and calling it again on the already reordered set leaves the set and the result unchanged.",
  ["histories"], "every sequence of calls in one process",
  "Each test makes one isolated call per data set.",
  ["src/votess.ipp", "src/xyzset.ipp", "src/cc.ipp"],
  [("all scratch state local to the call", "src/votess.ipp"), ("stable sort", "src/xyzset.ipp")],
  ["results of call sequences in one process"])

p("C24", "Index type and precision do not change the diagram",
  "The same points give the same rows for every signed index type wide enough to hold the result, bit-for-bit, and a set whose coordinates are representable in single precision has the same neighbours in double precision except for faces negligible in single precision. Sets or grids too large for the index type are refused with an exception rather than giving a truncated result.",
  ["inputs", "configurations"], "every point set and pair of instantiations",
  "Tests instantiate int and float almost exclusively and never compare instantiations.",
  ["src/votess.ipp", "src/xyzset.ipp", "src/cc.ipp", "src/knn.ipp"],
  [("templates over index and coordinate type", "include/votess.hpp")],
  ["results of the instantiations"])

p("C25", "The diagram respects the symmetries of the cube",
  "Applying any of the 48 symmetries of the unit cube (axis permutations and reflections) to a point set in general position gives the same neighbour relation between corresponding points. No axis or direction is treated specially.",
  ["inputs"], "every point set in general position and every cube symmetry",
  "Tests never transform an input; a defect confined to one axis or one wall can hide behind containment checks.",
  ["src/cc.ipp", "src/knn.ipp", "src/xyzset.ipp", "src/planes.ipp"],
  [("symmetric initial box and grid", "src/cc.ipp p_init/t_init, src/xyzset.ipp")],
  ["results on transformed sets"])

p("C26", "Larger limits never change a completed cell",
  "Once the candidates of a point are enough to complete its cell within the capacity limits, every run with a larger k, larger plane or vertex capacity, or recompute enabled, in any combination and by any amount, returns the same row for that point, and no larger limit turns a completed cell into an unfinished one. The limits decide only which cells can be completed, never what a completed cell looks like.",
  ["inputs", "configurations"], "every point set in general position, every setting of the limits under which a cell is complete and every larger setting",
  "The repository tests run each set with one fixed choice of limits and never compare two settings.",
  ["src/cc.ipp", "src/knn.ipp", "src/heap.ipp", "src/votess.ipp", "include/arguments.hpp"],
  [("security radius stop", "src/cc.ipp"), ("candidate heap", "src/knn.ipp"), ("limits read from the parameter store", "include/arguments.hpp")],
  ["return value of votess::tesellate under several limits"])

p("C27", "Memory and threads stay within what the parameters allow and are returned",
  "With chunking, the working storage of a call at any moment is that of one chunk of cells plus storage proportional to the points, the grid and the result: it never grows with the number of chunks or to that of the whole set; recomputing adds storage for the cells that are still incomplete, not for all. At no time do more workers run than cpu_nthreads asks for. When a call has returned or thrown, all its workers have ended and all memory except the result has been released, so that any number of calls can be made in one process.",
  ["inputs", "configurations", "histories"], "every point set, parameter setting, refused or completed call and number of repetitions",
  "The repository tests look at results only; a scratch array sized for the whole set, a worker too many or storage kept per call changes no row.",
  ["src/votess.ipp"],
  [("per-chunk scratch arrays", "src/votess.ipp __cpu__tesellate"), ("worker start and join", "src/votess.ipp"), ("temporary rows", "src/votess.ipp tmpnn_fill, tmpnn_getdnn")],
  ["operator new and pthread_create during votess::tesellate"])

p("C28", "Points outside the unit cube are pointed out, valid sets never are",
  "For every point set, a call on the CPU that is not refused writes a complaint to standard error exactly when some coordinate of some point is not strictly between 0 and 1 (on a face, outside, infinite or NaN), wherever in the set that point is, with output suppressed or not; a valid set of any size, precision and parameters causes no complaint. The validation routines decide exactly: a set is valid when every coordinate of every point lies strictly inside, cell numbers when they never decrease, a sort when every number is that of the grid cell of its point.",
  ["inputs", "configurations"], "every point set, position and kind of an offending coordinate, and every list of cell numbers",
  "Tests call the validators on valid sets only, where always answering yes passes.",
  ["src/xyzset.ipp", "src/votess.ipp"],
  [("validation of the reordered set", "src/xyzset.ipp validate_xyzset, validate_id, validate_sort"), ("complaints", "src/votess.ipp tesellate")],
  ["standard error of a call", "answers of the validators"])

p("C29", "Work is local, not repeated, and shared by the workers",
  "For evenly spread points, a grid with a fixed number of points per grid cell and a fixed k, the work done per point does not grow with the size of the set: the candidate search looks at nearby grid cells only. Splitting a call into chunks of any size or among any number of workers leaves the total work essentially unchanged, enabling recompute costs no more than the unfinished cells require, and with several workers (as many as the machine has when cpu_nthreads is 0) and many points no single worker does nearly everything.",
  ["inputs", "configurations"], "every set size, chunk size, thread count and recompute setting",
  "Results do not show how much was computed: a search over the whole grid, a chunk computed twice or a single busy worker passes every test.",
  ["src/knn.ipp", "src/votess.ipp"],
  [("early end of the shell search", "src/knn.ipp"), ("chunk loop and division among threads", "src/votess.ipp __cpu__tesellate"), ("selection of unfinished cells", "src/votess.ipp __cpu__recompute")],
  ["edges executed per thread during votess::tesellate"])

p("C30", "Parameters, results and saved files do not depend on the process locale",
  "Whatever global C++ locale the program has installed when a parameter is set, when it is read, when a call is made and when a result is saved, and whether it changes in between, every parameter reads back as the value that was set (and as text in plain digits), the call gives the same rows and points, and the saved file is the same bytes: decimal indices without digit grouping.",
  ["histories", "configurations"], "every combination of locales at the time of setting, reading, calling and saving",
  "Tests run in the classic locale only; an application that installs the user's locale gets grouped digits from every new stream.",
  ["include/arguments.hpp", "src/dnn.ipp"],
  [("conversion to and from text", "include/arguments.hpp to_str, from_str"), ("file stream", "src/dnn.ipp savetxt")],
  ["values read, rows, bytes of saved files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
