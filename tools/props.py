"""The properties, their anchors and how each is decided.  gen.py writes properties.jsonl and MANIFEST.json from this."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, how, note, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, how=how, note=note, level=level))


prop("C01", "Iterating over a suite delivers every selected problem exactly once",
     "For every suite, instance string and option string, repeatedly asking for the next problem delivers each selected (function, dimension, instance) exactly once, with the dimension varying slowest, then the function, then the instance, and then reports the end. The number of problems the suite announces is the number delivered, and several suites iterated in any interleaving do not affect each other. Reading a problem by index or by function/dimension/instance in between does not disturb an iteration.",
     ["inputs", "histories", "configurations"], "all suites, instance/option strings, interleavings of the operations of several suites",
     "The tests iterate one or two fixed selections to the end; filters, several open suites and mixed access are not combined.",
     ["src/coco_suite.c", "src/suite_*.c"], "the next index is advanced over the kept entries of the function, dimension and instance lists",
     "TLC behaviours of the suite specification replayed into the library, traces checked against it",
     "Suite.tla states the selection and the iteration order; behaviours generated by TLC are replayed and every answer is checked by TLC. Problems are recognised by identifier, dimension and index.")
prop("C02", "Index, function/dimension/instance and identifier name the same problem",
     "Within a suite, the problem with index n is the one whose function, dimension and instance the index decodes to; encoding and decoding are inverse to each other, and asking by (function, dimension, instance) delivers the same problem as asking by its index. The problem's own identifier, dimension and index agree with that address, also when the suite was filtered and whatever was asked before.",
     ["inputs", "histories", "configurations"], "all suites and filters, all indices and triples, all histories of requests",
     "The tests check a handful of indices of unfiltered suites.",
     ["src/coco_suite.c"], "mixed radix index over all (unfiltered) functions, dimensions, instances",
     "TLC behaviours of the suite specification replayed into the library, traces checked against it",
     "Addresses are computed by the specification; indices, triples and orders are generated by TLC.")
prop("C03", "Option strings select exactly the named instances, functions and dimensions",
     "The instance string (instances or year) and the option string (dimensions, dimension_indices, function_indices, instance_indices with lists and open or closed ranges) select exactly the entries they name that exist in the suite; of two conflicting keys the first given counts. Unknown suite names yield no suite, and a string without restrictions keeps everything.",
     ["inputs", "configurations"], "all combinations of keys, ranges, years and suites",
     "The tests use about ten fixed strings; the grammar and its combinations are unbounded.",
     ["src/coco_suite.c", "src/coco_string.c", "src/coco_utilities.c"], "range parsing and index filtering of the suite",
     "TLC-generated option strings replayed, the complete selection read back and checked by TLC against the specification",
     "The complete selection of each generated string is read back. Ranges completely outside of what exists are left out (no documented meaning).")
prop("C04", "The value of a point depends on the problem and the point only",
     "Evaluating a point on a problem returns the same objective and constraint values whatever was evaluated before, on this or any other problem, whether the problem was obtained by iteration, index or triple, freed and created again, or observed. For noisy problems the same holds for the sequence of values from the reset of the noise seed on, and neither the argument vector nor any other problem is changed by an evaluation.",
     ["inputs", "histories"], "all problems, points and histories of evaluations, creations and releases",
     "The tests evaluate fixed points on fresh problems; dependence on history needs sequences over several live problems.",
     ["src/coco_problem.c", "src/transform_*.c", "src/f_*.c", "src/suite_*.c"], "per-problem transformation data; shared static buffers and seeds",
     "TLC behaviours of the evaluation specification replayed into the library, traces checked against it",
     "Values are opaque to the specification: what is decided is that they are a function of (problem, point), by comparing with isolated evaluations in a fresh process.")
prop("C05", "Evaluation counters, best value and final-target flag are exact",
     "After any sequence of operations a problem's evaluation and constraint-evaluation counters equal the number of counted evaluations, the best observed value is the minimum over the feasible evaluated points, and the final target counts as hit exactly when that value reaches the target; once hit it stays hit. Points with undefined or infinite coordinates return undefined or infinite values and leave counters and best value unchanged, and recommendations are not counted.",
     ["inputs", "histories"], "all problems, points (finite or not), sequences of evaluations, constraint evaluations and recommendations",
     "Tests look at counters after one or two evaluations.",
     ["src/coco_problem.c", "src/coco_suite.c", "src/transform_obj_*.c"], "counters kept in the problem object by the evaluation entry points",
     "TLC behaviours of the evaluation specification replayed into the library, traces checked against it",
     "Values of single points come from isolated evaluations; the bookkeeping over histories is computed by the specification.")
prop("C06", "Observing a problem changes nothing the algorithm can see",
     "Adding any observer (bbob, bi-objective, toy, rw, also several) to a problem leaves unchanged every value, counter, bound, identifier, target flag and recommendation behaviour visible through the problem interface. Removing the observer gives back the problem with the same counters as if it had been evaluated without it.",
     ["histories", "configurations", "inputs"], "all stacks of observers, all histories of adding, removing and evaluating",
     "Tests observe with one observer and never compare with an unobserved run.",
     ["src/coco_observer.c", "src/logger_*.c", "src/coco_problem.c"], "loggers are transformed problems that forward the calls",
     "TLC behaviours of the evaluation specification with observers, replayed and checked",
     "The specification does not mention observers in the results at all; see known findings K1.")
prop("C07", "The bbob data file records every improvement that reaches a new target",
     "For every observed run, the .dat file contains a header per problem instance and then exactly one row for the first evaluation and for each evaluation that improves the best value and passes a new (logarithmic or linear) target, plus the row of the last evaluation, in order of evaluation. Each row holds the evaluation number, constraint evaluations, best and current distance to the optimum, best value and the evaluated point (best point in the closing row) as they were.",
     ["histories", "inputs", "configurations"], "all sequences of evaluations on all single-objective problems, all target options",
     "The regression tests compare a handful of fixed runs.",
     ["src/logger_bbob.c", "src/coco_observer.c"], "target triggers and row output of the bbob logger",
     "TLC behaviours of the bbob logger specification replayed, files parsed back and checked by TLC row by row",
     "LoggerBbob.tla predicts the list of rows; the numbers in a row are reproduced from an unobserved problem evaluated at the same points. Traces that come closer to a target boundary than rounding allows are left out.")
prop("C08", "The time-based data file has a row at every evaluation trigger",
     "The .tdat file contains per problem instance exactly one row for each evaluation whose number (objective plus constraint evaluations) reaches a new trigger - the logarithmic sequence or a base factor times dimension times a power of ten - plus the row of the last evaluation. Rows never repeat an evaluation, and each holds the best and current values as they were at that evaluation.",
     ["histories", "configurations"], "all run lengths, dimensions, base trigger options, interleavings of constraint evaluations",
     "The tests count lines for one run of eight evaluations.",
     ["src/logger_bbob.c", "src/coco_observer.c"], "evaluation triggers of the bbob logger",
     "TLC behaviours of the bbob logger specification replayed, files parsed back and checked by TLC row by row",
     "As C07. The option for the number of logarithmic triggers is not varied here (known finding K3 of C25).")
prop("C09", "Info files account for every benchmarked problem",
     "After the problems are released, the info file of a function lists for every problem that was evaluated its instance, number of evaluations and final distance to the optimum, under a header with suite, function, dimension, precision and algorithm, and next to the name of the data file that holds its rows. Problems never evaluated leave no trace; every entry's data are in exactly the file named, in order, and no existing data file is written by another group of runs.",
     ["histories", "configurations"], "all orders of problems, suites and observers in one experiment",
     "The tests run suites in the standard order with one observer.",
     ["src/logger_bbob.c"], "grouping of info lines and data files by (function, dimension) of the observer",
     "TLC behaviours of the bbob logger specification over several problems replayed, info and data files parsed back and checked by TLC",
     "Orders of problems are generated by TLC; file contents are parsed back completely.")
prop("C10", "Restart and recommendation files record what was signalled",
     "The .rdat file has one row for each restart signalled between two evaluations, written with the next evaluation; the .mdat file has a row exactly for recommendations that improve on all earlier ones and reach a new target, plus a closing row. Recommendations and restart signals leave the other files and the counters untouched.",
     ["histories"], "all interleavings of evaluations, restart signals and recommendations",
     "One test recommends once; restarts are hardly tested.",
     ["src/logger_bbob.c", "src/coco_observer.c", "src/coco_problem.c"], "restart flag of the observer and recommendation targets of the logger",
     "TLC behaviours of the bbob logger specification replayed, files parsed back and checked by TLC row by row",
     "As C07.")
prop("C11", "The bi-objective archive file holds exactly the nondominated history",
     "With archive logging on, the bi-objective archive file of a run contains exactly the evaluated solutions that were nondominated by all earlier ones when evaluated (all), or the final nondominated set (final), each with its evaluation number and objective values, and ends with the total number of evaluations. Solutions are listed in order and those never evaluated do not occur.",
     ["histories", "inputs", "configurations"], "all sequences of evaluations on bi-objective problems",
     "Regression tests compare fixed runs only.",
     ["src/logger_biobj.c", "src/logger_biobj_avl_tree.c"], "AVL tree of nondominated solutions",
     "TLC behaviours of the archive specification replayed, archive file parsed back and checked by TLC",
     "Dominance is decided by the specification on ranks of objective values.")
prop("C12", "Bi-objective indicator data are exact and reconstructible",
     "The indicator files of a bi-objective run contain a row exactly when the hypervolume of the archive reaches a new target (or evaluation trigger), with the evaluation number and the value it has then, and the info file closes with the number of evaluations and the final value. Feeding the archived solutions of a run into a second run reproduces the same indicator data.",
     ["histories", "inputs"], "all sequences of evaluations on bi-objective problems",
     "Regression tests compare fixed runs only.",
     ["src/logger_biobj.c"], "incremental hypervolume update on insertion and removal",
     "traces of real runs checked by TLC against the archive specification; reconstruction compared with the original",
     "The hypervolume is recomputed from the specified archive with exact rational arithmetic.")
prop("C13", "Archives of solutions keep the nondominated set and its hypervolume",
     "After any sequence of insertions an archive object holds the extreme points and exactly those inserted points inside the region of interest that are not weakly dominated by another, reports their number and hypervolume, and hands out every solution once in order.",
     ["histories", "inputs"], "all sequences of insertions",
     "One test inserts a few points.",
     ["src/coco_archive.c"], "AVL tree, cached hypervolume and cursor of the archive",
     "TLC behaviours of the archive specification replayed, traces checked",
     "Small integer objective grids; hypervolume exact.")
prop("C14", "Reading the optimum disqualifies the problem from benchmarking",
     "Once the optimal solution of a problem has been read, every later evaluation of that problem through a benchmarking observer is refused, whether the observer was added before or after, and whatever observers were added or removed in between. Problems whose optimum was not read are never refused, and reading it on one problem has no effect on others.",
     ["histories"], "all orders of reading the optimum, adding and removing observers and evaluating",
     "No test reads the optimum of an observed problem.",
     ["src/coco_problem.c", "src/coco_observer.c", "src/logger_bbob.c"], "taint flag of the problem object",
     "TLC behaviours of the evaluation specification with observers and optimum reading, replayed and checked",
     "Refusal is observed as the error exit of the process; known finding K2.")
prop("C15", "Suites, observers and problems can be released in any order safely",
     "Problems, observers and suites may be created, combined and released in any order the interface permits without invalid memory access, double release or leak. When everything has been released, all data of every observed problem are on disk.",
     ["histories", "programs"], "all interleavings of creation, observation and release",
     "Tests release in one canonical order and without sanitizers.",
     ["src/coco_suite.c", "src/coco_observer.c", "src/coco_problem.c", "src/logger_*.c"], "ownership of current problem, logger data and observer",
     "TLC behaviours of the evaluation specification replayed into an address/undefined-behaviour sanitized library",
     "Sanitizers and leak detection observe the replays; the histories come from the specification.")
prop("C16", "Result folders are unique and never overwritten",
     "Every observer writes into a folder that did not exist before it was created: the requested name, or that name with the smallest free number. Observers created concurrently, in one or in several processes, never share a folder.",
     ["schedules", "configurations", "histories"], "all sets of existing folders, all interleavings of concurrent creations",
     "Tests never run two processes concurrently.",
     ["src/coco_utilities.c", "src/coco_observer.c"], "unique directory creation",
     "TLC model of the folder protocol; every interleaving of two real processes at their file system calls replayed and checked",
     "Interleavings are forced with a preloaded stand-in for the file system calls in a scratch folder.")
prop("C17", "Data logged before a crash survive it",
     "If the process dies at any point, all rows of the evaluation data files triggered by evaluations that had returned are in the files completely, and at most the closing rows and info entries of problems still open are missing. No file contains data that did not happen.",
     ["crash_points"], "all points at which the process can die",
     "No test kills a run.",
     ["src/logger_bbob.c", "src/logger_biobj.c"], "flush after each row",
     "TLC behaviours of the bbob logger specification cut at every step by killing the process; files checked by TLC",
     "The process ends without running any cleanup; the page cache survives (no power failure).", "fault_enumeration")
prop("C18", "Repeated sweeps run exactly the problem instances that need another trial",
     "In the first sweep every problem instance is to be run; afterwards an instance is to be run again exactly if it has fewer trials than another recorded instance of the same function and dimension, or if its function in this dimension has neither the requested number of successes nor used up the budget (summed evaluations of all recorded instances at least their number times dimension times multiplier). The experiment ends before a sweep exactly when no recorded instance is to be run again, nothing was recorded in a completed sweep, or the maximal number of sweeps is reached. All queries (trials, successes, evaluations, instances, remaining problems, number of the proposed initial solution) agree with what was recorded, for every history of calls.",
     ["histories", "inputs"], "all outcomes of the single runs",
     "One doctest.",
     ["build/python/src/cocoex/utilities.py"], "per-problem bookkeeping of runs and evaluations",
     "TLC behaviours of the repeater specification replayed into the Python class, traces checked", "The class is driven with stub problems whose outcomes TLC chooses.")
prop("C19", "Batches partition the suite",
     "For every number of batches and every suite order, each problem asked for belongs to exactly one batch; problem instances that follow each other with the same function and dimension are in the same batch, successive groups go to successive batches cyclically, and the assignment is the same in every sweep, starting again when the first problem reappears. Exactly the valid batch numbers are accepted. The counter of consecutive instances of the same function returns the number of directly preceding calls with the same function and dimension.",
     ["configurations", "inputs"], "all numbers of batches and suites",
     "One doctest.",
     ["build/python/src/cocoex/utilities.py"], "counter modulo number of batches",
     "TLC behaviours of the scheduler specification replayed into the Python class, traces checked", "The class is driven with stub problems.")
prop("C20", "The Python interface names and returns the same problems as the library",
     "In Python, iterating a suite, indexing it (also from the end), looking up an identifier and asking by function, dimension and instance return the problems the library itself enumerates, with the same identifiers, bounds, initial solutions, values and evaluation counts, independently for every problem object. Going on to the next problem, resetting the suite, leaving a with-statement and freeing release exactly the problem concerned; a released problem, an invalid index, identifier or function, and a point of the wrong dimension are refused with an exception and never end the process. Bare problems give the values of the suite's problem. The first proposal of an initial solution is the initial solution, later ones are new points of the domain (around the feasible solution when there are constraints) with admissible integers, each of which can occur.",
     ["histories", "inputs"], "all suites and histories of use", "Doctests on one suite.",
     ["build/python/src/cocoex/interface.pyx"], "list of identifiers and indices kept by the suite wrapper",
     "TLC behaviours of the suite and evaluation specifications replayed through the Python module, traces checked", "The extension is built from the tree.")
prop("C21", "A budget-dependent run records one trajectory over increasing budgets",
     "When a problem is run repeatedly with increasing budgets, values are those of the problem; an evaluation is recorded exactly if it goes beyond what is recorded so far, and the solution delivered for a budget is recorded unless its value is the best one recorded. Delivering a solution after fewer evaluations than recorded is refused; what was recorded is never changed. The wrapper says about itself (dimension, id, index, bounds, ...) and prints what the problem says, proposes random points inside the bounds, and frees both problems when its block is left.",
     ["histories"], "all histories of calls", "One doctest.", ["build/python/src/cocoex/utilities.py"], "wrapper state",
     "TLC behaviours of the wrapper specification replayed, traces checked", "Stub problems.")
prop("C22", "Announced optimum, bounds and targets are consistent with the values",
     "For every single-objective problem the announced optimal value is attained (within rounding) at the announced optimal solution, which lies inside the documented region of interest and is feasible, and no evaluated feasible point is better beyond rounding; the final target lies above the optimal value by the announced precision; bounds and numbers of variables, objectives and constraints are the documented ones and the initial solution lies inside the bounds (for constrained problems it is feasible). Evaluating any finite point returns; it never ends the process.",
     ["inputs", "configurations"], "all functions, dimensions, instances and points", "Tests check a few functions in one dimension.",
     ["src/suite_*.c", "src/f_*.c", "src/transform_*.c"], "best parameter and value carried through the transformations",
     "displacements around the optimum generated from the specification, evaluated on the real problems, traces checked by TLC with the optimum as an invariant",
     "Noisy problems: only bounds and the noise-free part are checked. Sampled points (random, near the optimum, on the bounds).")
prop("C23", "Mixed-integer problems see only admissible integer values",
     "A mixed-integer problem evaluates a point as the point with its integer coordinates rounded to the nearest admissible integer (values outside the bounds are clipped; exactly between two integers either is right), its value is the scaled value of the continuous problem at the place of that integer point, its optimum lies at an admissible integer point, and it announces bounds, number of integer variables and an initial solution consistent with that.",
     ["inputs", "configurations"], "all mixed-integer problems and points", "Tests look at bounds only.",
     ["src/transform_vars_discretize.c", "src/suite_bbob_mixint.c", "src/suite_biobj_mixint.c"], "rounding and clipping of variables",
     "points generated from the specification's grid replayed, equalities checked by TLC", "Equality of values is decided on the real code.")
prop("C24", "The rw and toy loggers write exactly the rows they promise",
     "The rw logger writes, for every problem observed, one header and one row for each evaluation (or, when so configured, for each evaluation better than all before) with the number of evaluations since the observer was added, the constraint evaluations of the problem, the objective values, and the variables, constraints and time asked for, in the precision asked for and with integer variables as the nearest integers when asked for; the toy logger writes one row whenever an evaluation hits a harder target than all before, with the first such evaluation, its value and the target. Everything written before is kept, and after a sudden death of the process all rows of finished evaluations are there.",
     ["histories", "configurations", "crash points"], "all histories of evaluations and observers, observer options, and points at which the process dies", "Regression runs only.",
     ["src/logger_toy.c", "src/observer_toy.c", "src/logger_rw.c", "src/observer_rw.c"], "output of the loggers",
     "TLC behaviours replayed, files parsed back and checked by TLC", "As C07. Cases in which the documentation of low_dim_cons and log_time contradicts itself are left out.")
prop("C25", "Observer options take effect as documented",
     "Each documented general observer option (folders, algorithm name and info, target and evaluation triggers, precisions, integer variables as integers) and each option of the rw and toy observers has its documented effect on the written data and no other, for every combination, order and way of writing of options, whatever the values of the other options contain (names of options, quotes, percent signs); values that make no sense leave the default; options that are unknown are reported, exactly those, and ignored.",
     ["configurations", "inputs"], "all combinations of options", "Each option is tested at most alone.",
     ["src/coco_observer.c", "src/observer_*.c", "src/logger_*.c", "src/coco_utilities.c"], "coco_options_read*, coco_option_keys, coco_observer()",
     "option texts generated by TLC run on the real observers; settings read off the written data and compared by TLC with the specification's reading of the same tokens", "See known finding K3. The bbob data format has fixed precisions; options given twice are left out.")
prop("C26", "Random numbers and log levels are deterministic and independent",
     "A random number generator yields the sequence that belongs to its seed (lagged Fibonacci, uniform numbers in [0,1), normal numbers from two uniform ones) whatever other generators, problems, messages or levels do in between; the values of problems do not depend on generators or levels; the message level decides exactly which messages appear, on which stream and in which order; setting a level returns the previous one and an unknown level changes nothing.",
     ["histories"], "all seeds and interleavings", "Tests check the first numbers of one seed.",
     ["src/coco_random.c", "src/coco_utilities.c", "src/coco_runtime_c.c"], "generator state per object; global log level",
     "TLC behaviours replayed, traces checked", "Sequences are computed from the definition of the generator.")
prop("C27", "Related suites agree on the functions they share",
     "A bi-objective problem's objectives are the values of the two single-objective problems of the documented pair of functions and instances, and its nadir point has each objective's value at the optimum of the other; a boxed problem is the bbob function with its optimum moved, infinite outside the box; largescale and mixed-integer variants relate to their originals as documented; the optimal value depends only on function and instance, across dimensions and suites; the number of constraints is the documented one; and the values of every problem are those of the published suite definition.",
     ["inputs", "configurations"], "all problems and points", "The integration tests sample few instances.",
     ["src/suite_*.c", "src/f_*.c", "src/transform_*.c"], "construction of problems from base functions and transformations",
     "traces of real evaluations checked by TLC against relations between problems and the reference table", "Reference values recorded from the unchanged tree, compared with tolerance. Functions 21 and 22 of the boxed suite are checked outside the box and by reference only.")
prop("C28", "The Java interface answers what the C library answers",
     "In every history of calls of the Java classes (suites, observers, benchmarks, problems), each answer is the one of the C library: names and numbers of problems, the problem delivered next, by index or by function, dimension and instance (null when there is none), identifiers, names, dimensions, bounds, objective and constraint values bit by bit, counts of evaluations, whether the final target was hit; the points given are not changed; the observers write the same files as in C. A point of the wrong length is refused with an exception and changes nothing; no permitted history ends the process.",
     ["histories", "inputs"], "all histories of calls, all suites and points", "One example experiment is run in Java.",
     ["build/java/Problem.java", "build/java/Suite.java", "build/java/Observer.java", "build/java/Benchmark.java", "build/java/CocoJNI.c"], "native methods and the classes around them",
     "TLC behaviours of the interface specification replayed through the Java classes and the C library, answers checked by TLC, files compared", "Interface and native library are built from the tree; observers of the problem of the iteration are attached by the iteration only.")
prop("C29", "The Rust interface answers what the C library answers",
     "In every history of calls of the Rust interface (suites and their copies, observers, owned problems, generators of random numbers), each answer is the one of the C library: names and numbers of problems, the problem delivered next, by index or by function, dimension and instance (None when there is none), functions, dimensions and instances of indices, identifiers, types, ranges, initial solutions, best and target values, objective and constraint values bit by bit, counts, best observed value, random numbers; the observers write the same files as in C. Vectors of the wrong length panic and change nothing; every suite that can be named exists; dropping objects in any permitted order never ends the process.",
     ["histories", "inputs"], "all histories of calls, all suites and points", "One example experiment is run in Rust.",
     ["build/rust/src/suite.rs", "build/rust/src/problem.rs", "build/rust/src/observer.rs", "build/rust/src/random.rs", "build/rust/coco-sys/wrapper.c"], "safe wrappers around the C functions",
     "TLC behaviours of the interface specification replayed through the crate and the C library, answers checked by TLC, files compared", "bindgen is not available: the declarations are made from coco.h by a small translation. Types of toy problems are not asked for (the library has none).")
prop("C30", "Settings of an experiment in Python reach their destination unchanged",
     "Arguments name=value of args_to_dict are assigned to the one known name they abbreviate with the Python literal they spell (or the text itself); a name that abbreviates none or several known names, a second different value for the same name, a missing or repeated separator and a batch value of the wrong form raise ValueError. ObserverOptions: update replaces, update_gracefully only adds, and as_string is a text from which the library reads exactly these names and values. dict_to_eval keeps exactly the entries that are Python literals and whose names do not begin with an ignored prefix; write_setting writes them once (an existing file stays as it is, with a warning) and read_setting returns them equal, None with a warning on request when there is no file. ascetime gives whole hours, minutes and seconds. MiniPrint and ShortInfo print one symbol per call, and function and dimension exactly when they change. random_search evaluates points inside the bounds only, exactly the budget of them (at most, when there are constraints), and returns the first best feasible point it evaluated (None without one or with several objectives).",
     ["inputs", "histories"], "all argument lists, options, parameter sets and histories of calls", "Two doctests exist.",
     ["build/python/src/cocoex/utilities.py", "build/python/src/cocoex/solvers.py"], "pure Python helpers",
     "TLC behaviours of the settings specification replayed into the real functions, answers, files, warnings and output checked by TLC", "Values of options with colons outside quotes, and known names that begin with another known name given in full, are not asked for.")
prop("C31", "The MATLAB interface answers what the C library answers",
     "In every history of calls of the MATLAB interface (cocoCall with the name of a function: suites and their problems, observers, added and removed, log level), each answer has the class, shape and value the C library gives: the problem delivered next or by index, identifiers, names, dimensions, bounds, initial solutions, values of interest, objective and constraint values bit by bit, counts, whether the final target was hit, the log level before; adding and removing an observer return the problem's handle as documented; the observers write the same files as in C. Points may be rows or columns; a point of the wrong length or class, a missing or surplus argument, and a name that is not known are errors which change nothing. Warnings and messages are shown as they are, whatever characters and however many they have, according to the log level; nothing else is printed; no permitted history ends the process or touches memory it does not own.",
     ["histories", "inputs"], "all histories of calls, all suites and points", "No test runs this interface.",
     ["build/matlab/cocoCall.c", "src/coco_runtime_matlab.c"], "the dispatcher of the MATLAB calls and its runtime",
     "TLC behaviours of the interface specification replayed through cocoCall.c (linked with a stand-in for MATLAB, with sanitizers) and the C library, answers checked by TLC, files compared", "MATLAB and Octave are not available: mex functions are a stand-in written from their documentation, and the .m files (one line each) are not run.")
