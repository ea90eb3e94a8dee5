NOTES = "No hooks in /repo: the seam of the programs is the libc boundary (LD_PRELOAD shim + fork server in /verif/shim), that of the Python scripts the interpreter's os, io, time and subprocess modules (/verif/pysim). See DESIGN.md."
EAGER = ["amzn-smt-eager-arithmetic/src/lib.rs", "amzn-smt-eager-arithmetic/src/canonicalize.rs", "amzn-smt-eager-arithmetic/src/stats.rs", "amzn-smt-eager-arithmetic/src/encoding.rs", "amzn-smt-eager-arithmetic/src/main.rs"]
TRUST = "Search, not proof: covers the seeds run. Trusts the simulator (shim, scheduler, file and pipe model) and "
prop("E01", "The eager solver's verdict is right under every legal execution",
  "For every quantifier-free linear integer / uninterpreted-function instance in the supported fragment, `solve` prints exactly one verdict, `sat` or `unsat`, and it is the right one. This holds for every hash seed and memory layout of the process, every interleaving with the SAT solver and every legal answer of the SAT solver (any satisfying assignment, any line layout, comments, partial reads and writes); with no fault injected the run ends with a verdict and exit status 0.",
  ["inputs", "schedules", "histories"], "all instances of the supported fragment x hash/heap seeds x solver interleavings x legal solver answers",
  "The tests solve five fixed instances with one in-process SAT solver; neither the iteration order of hash tables, nor the memory-address-ordered maps, nor other solver answers are varied, and the solution bound that decides soundness depends on them.",
  EAGER, [("solution bound per variable class", "stats.rs: Stats::solution_size_upper_bound_bits, determine_special_case"), ("normalisation of constraints", "canonicalize.rs"), ("two's complement encoding", "encoding.rs: encode_plus_bitwise, encode_gte, zip_bits"), ("solver exchange", "lib.rs: solve")],
  TRUST + "z3 as the oracle for the generated formulas (linear arithmetic with up to ~10 integer variables, UF, let, ite, n-ary operators, large constants).", observe=["stdout and exit status of `solve`"])
prop("E02", "A printed model satisfies the original instance",
  "Whenever `solve` prints `sat`, the model it prints is well formed, gives every defined symbol exactly one value of its declared sort, and makes every assertion of the original instance true, whatever values the symbols it leaves out are given. This holds for uninterpreted functions and for integers of any magnitude, and for every satisfying assignment the SAT solver may legally return.",
  ["inputs", "histories", "schedules"], "all satisfiable instances of the fragment x all satisfying assignments of their encoding x hash/heap seeds",
  "The tests look at single values of small models found by one SAT solver; the decoding of wide integers and of function tables is never compared with the input formula.",
  EAGER, [("decoding", "encoding.rs: Encoder::decode"), ("model reconstruction", "lib.rs: reconstruct"), ("function tables", "aws_smt_ir::ackermann::ackermannize")],
  TRUST + "z3 evaluating the original assertions under the printed definitions; the scripted solver draws random satisfying assignments.", observe=["stdout of `solve`"])
prop("E03", "Faults never make the eager solver report a wrong answer",
  "When the exchange with the outside world fails while `solve` runs (the instance cannot be read completely, the SAT solver cannot be started, dies, is killed or closes a pipe at any point, or its answer is missing, malformed or cut off, or memory runs out, or output cannot be written), the command never prints a wrong verdict or a model that does not satisfy the instance, and never exits with status 0 without having printed a verdict. It does not hang, and interrupted system calls, short reads and writes and clock jumps change nothing.",
  ["fault_sequences", "crash_points", "inputs", "schedules"], "all fault sequences at the process's system calls and all points at which the solver child may die or garble its output",
  "No test injects a fault; all of them solve in-process without a child, a pipe or a partial read.",
  EAGER, [("solver exchange", "lib.rs: run_solver, write_dimacs"), ("input reading", "lib.rs: encode_inner"), ("error propagation to the exit status", "main.rs")],
  TRUST + "z3; faults are injected at libc calls of the tool and in the scripted solver.", observe=["stdout, exit status of `solve`"])
prop("E04", "encode exits 0 only if the whole equisatisfiable CNF was delivered",
  "`encode` exits with status 0 only if the output file holds a complete, well-formed DIMACS formula that is satisfiable exactly when the instance is. A fault anywhere (reading the instance, starting or feeding the preprocessor, the preprocessor's death or failure) leads to a non-zero exit status, and without faults encoding of a supported instance succeeds.",
  ["inputs", "fault_sequences", "crash_points", "schedules"], "all supported instances x all fault sequences, preprocessor deaths and interleavings",
  "No test runs `encode` or its child process.",
  EAGER, [("hand-over to the preprocessor", "main.rs: Operation::Encode"), ("DIMACS output", "lib.rs: encode, write_dimacs"), ("encoding", "encoding.rs")],
  TRUST + "z3 and the simulator's CDCL solver; the preprocessor is a stub that, like minisat, accepts DIMACS leniently.", observe=["exit status of `encode`", "the CNF output file"])
prop("E05", "The statistics that solve and encode print describe the instance",
  "`solve` and `encode` print one statistics line for each class of integer variables that constraints connect: the class's number of variables, largest coefficient, largest constant and widest constraint after each comparison has been brought to normal form, together with the bound in bits that these imply, in the format the prediction scripts parse. Up to equations counted once per orientation, the lines are the same for every hash seed and memory layout.",
  ["inputs", "histories"], "all instances of the supported fragment x hash/heap seeds",
  "The tests look at the bounds of one instance; the lines are the features of the Eager v. Lazy model and come out of hash-ordered unions of variable classes.",
  EAGER, [("classes and their statistics", "stats.rs: StatsVisitor, unify_values"), ("normal form of comparisons", "canonicalize.rs"), ("printing", "stats.rs: solution_size_upper_bound_bits; impl Debug for Stats"), ("consumer", "amzn-smt-prediction/scripts/generate_predictions.py: parse_eager_encoding_output, clean_eager_lazy_data.py: compute_bound")],
  TRUST + "an independent reference computation for formulas without functions, let and ite; comparison of two runs for the others.", observe=["stdout of `solve`"])
STR = ["amzn-smt-string-transformer/src/transpiler.rs", "amzn-smt-string-transformer/src/string_mappings.rs", "amzn-smt-string-transformer/src/string_fcts.rs", "amzn-smt-string-transformer/src/callgraph.rs", "amzn-smt-string-transformer/src/mapping_tools.rs", "amzn-smt-string-transformer/src/main.rs"]
prop("T01", "convert only renames symbols and replaces literals injectively",
  "`convert` keeps the query up to a complete injective renaming of its declared symbols and a replacement of its string literals: commands, operators, numbers and structure are unchanged (trivially true equations may go). The replacement is one injective function per query that maps the empty string, and only it, to itself, and the mapping file states exactly this renaming and replacement. This holds for every hash seed, memory layout and way in which reads and writes are split or interrupted.",
  ["inputs", "schedules"], "all queries over the supported string operators x both mapping types x hash/heap seeds x short and interrupted transfers",
  "The crate has no tests that check outputs; hash-table iteration order decides which literal is mapped first and hence which conflicts arise, and one run shows one order.",
  STR, [("mapping of one literal", "string_mappings.rs: StringMap"), ("grouping of related literals", "callgraph.rs"), ("rebuilding the query", "transpiler.rs: transform_ast, transpiler_visitors.rs"), ("mapping file", "mapping_tools.rs: Mapping::print_json_to_file")],
  TRUST + "an independent S-expression comparison of input, output and mapping file.", observe=["<name>_transformed.smt2", "<name>_mapping.json"])
prop("T02", "convert preserves satisfiability",
  "The converted query is well formed and satisfiable exactly when the original one is, for every combination of supported string operators (lengths, prefixes, suffixes, containment, concatenation, regular expressions with ranges and loops, conversions to and from integers, substrings, replacement, lexicographic order), for both mapping types and for every hash seed and memory layout. A query without character ranges, code points or lexicographic order is never given up on while there are enough characters.",
  ["inputs", "schedules"], "all queries over the supported string operators x both mapping types x hash/heap seeds",
  "No test compares the satisfiability of a query with that of its conversion, let alone under several iteration orders of the hash tables that decide the mapping.",
  STR, [("what each operator needs preserved", "string_fcts.rs"), ("propagation of these needs", "callgraph.rs, transpiler.rs"), ("choice of replacement strings", "string_mappings.rs, forest.rs")],
  TRUST + "z3 and cvc5 agreeing on both queries.", observe=["<name>_transformed.smt2"])
prop("T03", "Conversions that share a global map stay right in every history",
  "In any history of conversions with --use-global-map, run one after the other or concurrently, in which processes crash, inputs and outputs fail and power loss leaves the map old, cut off or garbled, every conversion that exits with status 0 produces a faithful and equisatisfiable query (as in T01 and T02), and every undisturbed conversion succeeds. When nothing else wrote the map meanwhile, the map file then states the replacement that was used.",
  ["histories", "schedules", "crash_points", "fault_sequences"], "all histories of conversions sharing a map x interleavings x crashes, I/O faults and power losses",
  "No test uses the global map; its reuse, invalidation and recovery only matter across several runs.",
  STR, [("loading and reuse", "transpiler.rs: transform_ast; mapping_tools.rs: Mapping::build_from_json_file"), ("validity of reused entries", "string_mappings.rs: persist_string_map"), ("writing", "main.rs: convert")],
  TRUST + "z3 and cvc5 agreeing on both queries.", observe=["<name>_transformed.smt2", "global_mapping.json"], state=[("global_mapping.json", "literal replacements carried from one conversion to the next", "working directory")])
prop("T04", "convert exits 0 only with complete and right outputs",
  "Whatever fails while `convert` runs (opening, reading, writing, memory, a crash), it exits with status 0 only if both the converted query and the mapping file are complete and right. Interrupted and short transfers change nothing, and a left-over file of an earlier run never shows through.",
  ["fault_sequences", "crash_points", "inputs"], "all fault sequences at the process's system calls and allocations x queries",
  "No test injects a fault.",
  STR, [("reading the query", "main.rs: convert"), ("writing both outputs", "main.rs: convert; mapping_tools.rs: print_json_to_file")],
  TRUST + "the oracles of T01 and T02.", observe=["exit status of `convert`", "its output files"])
prop("T05", "reconstruct turns a model of the converted query into one of the original",
  "After a char-to-char conversion and for every model a solver may give for the converted query, `reconstruct` announces the reconstruction and writes the original query with one equation per affected variable of the model, and this query is satisfiable. For the answers unsat, unknown, timeout and a bare sat it says so. Under faults it announces a reconstruction only if the file it wrote is complete and right.",
  ["inputs", "histories", "fault_sequences"], "all queries x all models of their conversion (including characters outside the mapped ones) x hash/heap seeds x fault sequences in both steps",
  "No test reconstructs a model; solvers may choose any characters, including ones that no literal mentions.",
  ["amzn-smt-string-transformer/src/reconstruct_tools.rs", "amzn-smt-string-transformer/src/mapping_tools.rs", "amzn-smt-string-transformer/src/main.rs"], [("inverse of the character map", "mapping_tools.rs, transpiler.rs: populate_ranges"), ("rebuilding the query", "reconstruct_tools.rs: reconstruct_and_add_assertions")],
  TRUST + "z3 and cvc5; models are drawn from z3 under random extra constraints on lengths and characters.", observe=["stdout of `reconstruct`", "<name>_recon_check.smt2"])
prop("T06", "sub-formula lists every subformula once, in order, or fails",
  "`sub-formula` writes the list of all function applications of all assertions, arguments before the application and from left to right, with variables numbered by first appearance inside each entry. It exits with status 0 only if the list is complete, whatever fails, and hash seeds, memory layout and the splitting of reads and writes do not change it.",
  ["inputs", "fault_sequences", "schedules"], "all queries without let x hash/heap seeds x fault sequences",
  "No test runs `sub-formula`.",
  ["amzn-smt-string-transformer/src/subformula_parser.rs", "amzn-smt-string-transformer/src/main.rs"], [("listing", "subformula_parser.rs: find_subformulae"), ("normalisation of variables", "subformula_parser.rs")],
  TRUST + "an independent enumeration of the applications.", observe=["<name>_recon.json", "exit status of `sub-formula`"])
UPDF = ["amzn-smt-string-fct-updater/src/transpiler.rs", "amzn-smt-string-fct-updater/src/main.rs"]
prop("U01", "The updater translates exactly the old notations and nothing else",
  "The updated script equals the input with every old string operator, old re.loop application and Z3 string escape translated to SMT-LIB 2.6 wherever it occurs in a term, and everything else unchanged and in order (but for annotations and recursive definitions, which the parser library does not keep); a script without set-logic gets one, after leading options, that admits its operators. Updating is independent of how the input is split into lines and reads, and of other updates running in the same directory.",
  ["inputs", "schedules"], "all scripts over old and modern string operators, lets, quantifiers, arithmetic and escapes x interleavings of several updates x short and interrupted transfers",
  "The crate has no tests.",
  UPDF, [("operators", "transpiler.rs: fold_uninterpreted_func, fold_var"), ("escapes", "transpiler.rs: convert_z3escapes"), ("logic", "transpiler.rs: modernize_string_fcts")],
  TRUST + "an independent reference translation over S-expressions.", observe=["<name>_upt.<ext>"])
prop("U02", "The updater exits 0 only with the whole updated script written",
  "Whatever fails while a script is updated (opening, reading, writing, a full disk, memory, a crash at any point), the updater exits with status 0 only if the output file is complete and right, and it never changes its input. Running it again afterwards, also after a power loss, repairs the output completely.",
  ["fault_sequences", "crash_points", "histories"], "all fault sequences at system calls and allocations x crashes and power losses followed by a rerun",
  "The crate has no tests.",
  UPDF, [("reading", "main.rs: main"), ("writing", "main.rs: main")],
  TRUST + "an independent reference translation over S-expressions.", observe=["exit status", "<name>_upt.<ext>", "<name>.<ext>"])
PREDF = ["amzn-smt-prediction/src/main.rs"]
prop("P01", "The feature table has one right row per benchmark, in list order",
  "The table consists of the header of the chosen data set and, for each listed benchmark in order, one row whose columns are the numbers of occurrences of the corresponding operators in its assertions (also under lets, quantifiers and nested terms). A benchmark that is not SMT-LIB makes the run fail after the rows before it were written; concurrent runs and left-over tables do not matter.",
  ["inputs", "schedules"], "all lists of benchmarks over all string operators x data sets x interleavings of several runs x short and interrupted transfers",
  "The crate has no tests; header, counters and format string are three lists that must stay in step for 35 columns.",
  PREDF, [("counting", "main.rs: StringCounter::visit_theory_op"), ("columns", "main.rs: string_counter_csv_*")],
  TRUST + "an independent count over S-expressions.", observe=["off_features_<name>.csv", "exit status"])
prop("P02", "An interrupted feature table is a prefix that keeps every finished row",
  "At whatever point a run is killed or fails, its table is a prefix of the right one and already holds the rows of all benchmarks before the last one it announced. It exits with status 0 only if the table is complete, and a rerun after a crash or power loss produces the complete table.",
  ["crash_points", "fault_sequences", "histories"], "all fault sequences at system calls and allocations x crash points x power losses followed by a rerun",
  "The crate has no tests.",
  PREDF, [("row-wise flushing", "main.rs: main (out_writer.flush)"), ("error propagation", "main.rs: main")],
  TRUST + "an independent count over S-expressions.", observe=["off_features_<name>.csv", "exit status", "stdout"])
SCR = "amzn-smt-prediction/scripts/"
YT = "deterministic simulation with fault injection: seeded search over schedules, program behaviour, clocks and fault sequences; the real scripts run in CPython on a simulated machine (files, directories, child processes, pipes, clocks, entropy, prediction service)"
YTRUST = "Search, not proof: covers the seeds run. Trusts the simulated machine under the scripts (pysim/machine.py) and "
prop("Y01", "Raw solver output is what the solver printed within its ten seconds",
  "get_solver_output.py runs the chosen solver once on every benchmark of the list, with the options that make it print lemmas and conflicts (and --strings-fmf unless told otherwise) and with the benchmark's path as one argument whatever characters it holds, stops it after ten seconds, and stores under the benchmark's name exactly what the solver printed until then, up to surrounding white space and bytes that are not UTF-8: also if the solver is silent, hangs, dies or fails. Several runs on disjoint lists may go on at the same time. Exit status 0 means that all files are complete; whatever fails, files finished before the next solver starts stay, and a rerun completes the rest. A call with missing arguments or files or an unknown solver fails without running or writing anything.",
  ["inputs", "schedules", "fault_sequences", "crash_points"], "all benchmark lists x solver timelines x interleavings of concurrent runs x I/O faults, solver deaths, clock jumps and crashes",
  "The scripts have no tests, and what matters happens when solvers hang, die or print in pieces, hours into an unattended background run.",
  [SCR + "get_solver_output.py"], [("solver call and limit", "get_solver_output.py: get_cvc4_output, get_z3_output, get_partial_output"), ("file per benchmark", "get_solver_output.py: main")],
  YTRUST + "scripted solvers instead of cvc4 and z3.", observe=["../<solver>_output/raw/*", "command lines of the solver", "exit status"], tech=YT)
prop("Y02", "Online features count the words of each raw line in the right bucket",
  "get_word_counts.py writes for every listed benchmark one number per line of its raw output, the line's number of words. get_word_count_features.py writes a table with a header that names the buckets and one row per listed benchmark, in list order, whose columns count the numbers below 7, of 7, of 8, of 9, from 10 to below 20, … and of 100 or more, so that every line is counted in exactly one column. Concurrent runs on other lists or solvers and left-over files do not matter; exit status 0 means complete output, missing counts are an error, and a rerun after any fault repairs everything. A call with missing arguments or files, an unknown solver or theory fails without writing anything.",
  ["inputs", "schedules", "fault_sequences", "crash_points"], "all raw outputs and lists x interleavings of concurrent runs x I/O faults and crashes followed by a rerun",
  "The scripts have no tests.",
  [SCR + "get_word_counts.py", SCR + "get_word_count_features.py"], [("counting", "get_word_counts.py: write_word_counts"), ("buckets and their labels", "get_word_count_features.py: get_features, get_bucket_labels"), ("rows", "get_word_count_features.py: main")],
  YTRUST + "a reference count.", observe=["../<solver>_output/counts/*", "../<solver>_output/features/*.csv", "exit status"], tech=YT)
prop("Y03", "run_eager_v_lazy labels each benchmark with its really fastest solver",
  "For every listed benchmark, in order, run_eager_v_lazy.py writes into fastest_solver.csv the solver (z3, cvc4 or sat) that reached a verdict first, None if none did within five minutes, and into features.csv the encoding statistics printed by the eager solver (added up, with the largest coefficients and the bound implied, if there are several). A solver that fails, dies or gives up never counts as fast, jumps of the clock change nothing, every solver is stopped in time, the eager one runs for at least five seconds, and both tables stay in step. Exit status 0 means both are complete, and rows of benchmarks done before a crash are in them. A call with missing arguments, files or solvers fails without running or writing anything.",
  ["inputs", "fault_sequences", "crash_points", "histories"], "all timelines of the three solvers x printed statistics x clock jumps, solver deaths, I/O faults and crashes",
  "The scripts have no tests; the runs take days, and who wins depends on time, time-outs and deaths.",
  [SCR + "run_eager_v_lazy.py", SCR + "generate_predictions.py", SCR + "clean_eager_lazy_data.py"], [("racing", "run_eager_v_lazy.py: main, run_z3, run_cvc4, run_eager_arithmetic, is_solved"), ("statistics", "generate_predictions.py: parse_eager_encoding_output; clean_eager_lazy_data.py: get_naive_big_encoding, compute_bound")],
  YTRUST + "scripted solvers; the order of events within 0.3 s is not judged.", observe=["fastest_solver.csv", "features.csv", "command lines of the solvers", "exit status"], tech=YT)
prop("Y04", "find_faster_fmf sorts benchmarks by their real running times",
  "find_faster_fmf.py runs CVC4 once with and once without --strings-fmf on every listed benchmark, stops each run after five minutes, and writes the benchmark, as it was listed, into faster_fmf.csv if the run with the option ended first and into slower_fmf.csv otherwise, with both times in runtimes_fmf_exp.csv. Jumps of the clock change nothing. Exit status 0 means every benchmark is in exactly one list; whatever fails, results of benchmarks done before a crash stay. A call with missing arguments or files fails without running or writing anything.",
  ["inputs", "fault_sequences", "crash_points"], "all timelines of the solver x clock jumps, solver deaths, I/O faults and crashes",
  "The scripts have no tests.",
  [SCR + "find_faster_fmf.py"], [("timing and lists", "find_faster_fmf.py: main")],
  YTRUST + "a scripted solver; running times within 0.3 s are not told apart.", observe=["faster_fmf.csv", "slower_fmf.csv", "runtimes_fmf_exp.csv", "exit status"], tech=YT)
prop("Y05", "generate_predictions sends each model the features of its problem",
  "generate_predictions.py sends the configured endpoint of the configured theory the features of the given problem: for strings the offline counts followed by the bucketed word counts of ten seconds of CVC4 output, normalised by the configured means and deviations, and with FMF set the word counts alone to the second model; for arithmetic the statistics printed by the eager solver within five seconds. It reports the likeliest outcome with its probability in the configured form, and removes its temporary files. Features that could not be had are never made up: whatever fails, no wrong vector is sent, and exit status 0 means all predictions were made. Several runs in one directory do not disturb each other. Missing arguments, files, programs or endpoints and unknown theories are errors, found before anything is run.",
  ["inputs", "schedules", "fault_sequences", "crash_points"], "all configurations, problems and program behaviours x interleavings of concurrent runs x faults of files, programs and the service",
  "The script has no tests and needs three programs and a cloud service to run.",
  [SCR + "generate_predictions.py", SCR + "get_solver_output.py", SCR + "get_word_counts.py", SCR + "get_word_count_features.py", SCR + "clean_eager_lazy_data.py"], [("string features", "generate_predictions.py: do_runtime_prediction, normalize_features"), ("second model", "generate_predictions.py: do_solver_configuration"), ("arithmetic features", "generate_predictions.py: do_eager_lazy, parse_eager_encoding_output")],
  YTRUST + "stubs of the programs, the SageMaker client and numpy.argmax.", observe=["requests to the endpoints", "stdout", "files left in the working and temporary directories", "exit status"], tech=YT)
prop("Y06", "modernize_benchmarks updates every listed benchmark once, one at a time",
  "modernize_benchmarks.py calls the updater once for every line <name>_upt.smt2 or <name>_upt.smtlib of the list, with the path of <name> below the given directory as one argument, waits for it, and goes on with the next one also if an updater fails. Exit status 0 means that all lines were handled; missing arguments, files or the missing updater are errors.",
  ["inputs", "schedules", "fault_sequences", "crash_points"], "all lists of names x updater behaviour x interleavings of concurrent runs x I/O faults and crashes",
  "The script has no tests.",
  [SCR + "modernize_benchmarks.py"], [("names and calls", "modernize_benchmarks.py: main")],
  YTRUST + "a stub of the updater.", observe=["command lines of the updater", "exit status"], tech=YT)
prop("Y07", "Cleaned experiment tables keep benchmarks, times and features in step",
  "clean_smt_comp_results.py writes the QF_SLIA benchmarks of the selected families that CVC4 solved in 30 to 300 seconds, and those that took it at least 330, leaving out the excluded ones, with their times (those of the second group less 300 seconds, 1200 standing for a time-out) line by line beside them. clean_eager_lazy_data.py writes for every benchmark of the results, in order, its name, the solver with the least time and its encoding statistics (summed up if there are several), found by name; a benchmark without statistics or of unknown status is an error. Exit status 0 means complete tables whatever fails, and a rerun replaces what an earlier run left. Missing arguments or files and unknown theories are errors that write nothing.",
  ["inputs", "fault_sequences", "crash_points"], "all result files x I/O faults and crashes followed by a rerun",
  "The scripts have no tests; the committed tables were made from single input files.",
  [SCR + "clean_smt_comp_results.py", SCR + "clean_eager_lazy_data.py"], [("selection", "clean_smt_comp_results.py: main"), ("joining by name", "clean_eager_lazy_data.py: main"), ("sum of partitions", "clean_eager_lazy_data.py: get_naive_big_encoding, compute_bound")],
  YTRUST + "reference implementations; the bound of several partitions may differ by one where it is next to a power of two.", observe=["experiments_QF_SLIA/*.csv", "Eager_Lazy/*.csv", "exit status"], tech=YT)
