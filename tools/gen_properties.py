#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here as data, one call per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Distributing tests over workers neither loses nor repeats a test",
  "For every distribution mode, every list of collected tests and every worker count of at least one, the batches handed to the workers contain together exactly the collected tests: each occurrence in exactly one batch, no batch empty, and never more batches than workers.",
  ["inputs", "configurations"], "all test lists (any length, order, repetition, spelling), all five modes, all worker counts >= 1",
  "Unit tests try a few lists of up to ten ids with two to five workers; they cannot cover every length/worker-count relation or id shape.",
  ["src/scheduler.rs"],
  [("per-mode distribution", "src/scheduler.rs: impl Scheduler for *"), ("shared edge-case handling", "src/scheduler.rs: validate_and_handle_edge_cases"), ("grouping and group assignment", "src/scheduler.rs: group_tests_by_key, distribute_groups_to_workers")],
  observe=["value returned by create_scheduler(mode).distribute_tests(tests, n)"])
p("C02", "loadfile and loadscope keep a file or class on one worker, in order",
  "In loadfile mode all tests of one file, and in loadscope mode all tests of one class as well as all module-level tests of one file, are given to the same worker, wherever they stand in the collected list. Within a worker, tests of the same file or class keep the order in which they were collected.",
  ["inputs", "configurations"], "all test lists, including interleaved files and classes and parametrized ids, all worker counts",
  "Tests use already grouped lists with a few files; a split needs a particular interleaving, group count or id shape.",
  ["src/scheduler.rs"],
  [("key extraction", "src/scheduler.rs: extract_scope, extract_file"), ("grouping by key", "src/scheduler.rs: group_tests_by_key"), ("whole-group assignment", "src/scheduler.rs: distribute_groups_to_workers")])
p("C03", "A parallel pytest run starts every batch, awaits every worker, shows all output",
  "In a parallel run every non-empty batch is given to exactly one started worker carrying exactly that batch's tests, and the run ends only after every started worker has been awaited. The captured standard output and standard error of every worker are printed, under a worker number that is unique in the run. The output of the processes of a sequential run reaches the terminal.",
  ["inputs", "schedules", "configurations"], "all batch lists, subproject layouts, worker outcomes and completion orders",
  "Only single workers running echo are tested; the orchestration itself has no test.",
  ["src/runner.rs", "src/worker.rs", "src/pytest_executor.rs"],
  [("batch loop", "src/runner.rs: execute_tests_parallel"), ("worker pool", "src/worker.rs: WorkerPool::spawn_worker, wait_for_all"), ("sequential run", "src/pytest_executor.rs: execute_tests")])
p("C04", "A pytest run exits 0 only if every pytest process exited 0",
  "The overall exit code of a pytest run, parallel or sequential, is zero only if every process it started exited with zero. A process that cannot be started, is killed by a signal, or whose supervising thread panics counts as a failure, and no later success hides an earlier failure.",
  ["fault_sequences", "schedules", "configurations"], "all vectors of worker outcomes (any exit code, signal, launch failure, panic) in any order",
  "Tests run one missing program and one exit code; masking needs a particular order of several outcomes.",
  ["src/runner.rs", "src/worker.rs", "src/pytest_executor.rs", "src/pyo3.rs"],
  [("exit-code accumulation", "src/runner.rs: execute_tests_parallel; src/pyo3.rs: main_cli_with_args"), ("status mapping", "src/worker.rs: spawn_worker, wait_for_all; src/pytest_executor.rs: execute_tests")])
p("C05", "Subproject grouping keeps every test and only shortens its path",
  "When tests are grouped by subproject, every collected test lands in exactly one group, that of the nearest enclosing directory below the root that holds a pyproject.toml, or else the root's. Rewriting an id relative to its subproject changes only the file path in front of the first '::' and leaves the rest of the id as it was, whatever it contains, and drops no test.",
  ["inputs", "configurations"], "all directory layouts (nested subprojects, symlinks, missing files) and all test ids",
  "One unit test rewrites three ids; grouping is exercised by no stable test.",
  ["src/subproject.rs", "src/runner.rs", "src/pyo3.rs"],
  [("grouping", "src/subproject.rs: group_tests_by_subproject, find_subproject_root"), ("rewriting", "src/subproject.rs: make_test_paths_relative, split_test_node")])
p("C06", "Pytest processes get the full command line, directory and environment",
  "Every pytest process is started with the configured program, all initial arguments, every test id of its batch and every extra argument, each as a separate argument and in order, and with every configured environment variable set; it gets no other argument. When a working directory is given, the process runs in it and receives it as --rootdir.",
  ["inputs", "configurations"], "all programs, argument lists, environment lists and working directories",
  "Tests check that echo runs; they do not look at argument vectors in general.",
  ["src/worker.rs", "src/pytest_executor.rs", "src/runner.rs"],
  [("command construction", "src/worker.rs: spawn_worker; src/pytest_executor.rs: execute_tests"), ("environment parsing", "src/runner.rs: PytestRunner::new; src/pyo3.rs: from_current_python_with_env")])
p("C07", "The worker count honours -n and --maxprocesses",
  "The number of workers never exceeds --maxprocesses when that is given, and is otherwise exactly the number requested with -n ('auto' and 'logical' standing for the number of CPUs, no -n for one). Anything else given for -n is rejected with an error, never silently replaced, and a run that has tests to execute always has at least one worker, so that it cannot succeed without running them.",
  ["inputs", "configurations"], "all -n strings and all --maxprocesses values",
  "Tests sample a few values; zero workers with a non-empty test list is not tested at the level of a run.",
  ["src/cli.rs", "src/utils.rs", "src/runner.rs", "src/native_runner.rs"],
  [("parsing", "src/cli.rs: get_num_processes"), ("capping", "src/utils.rs: determine_worker_count"), ("lower bound", "src/runner.rs: execute_tests_parallel; src/native_runner.rs: execute_native")])
p("C08", "Native sharding gives every test file to exactly one worker",
  "The native runner's shards contain together exactly the files to run, each once, no shard is empty and there are never more shards than requested workers. Each shard is given to exactly one worker process, whose command line names every file of the shard.",
  ["inputs", "configurations"], "all file lists and worker counts >= 1",
  "Unit tests shard up to five files.",
  ["src/native_runner.rs"],
  [("sharding", "src/native_runner.rs: shard_files"), ("worker start", "src/native_runner.rs: execute_native, run_worker")])
p("C09", "A native run succeeds only if every worker delivered and every test passed",
  "The native runner exits 0 only if every worker process was started, was awaited, ended normally and delivered a complete, readable result file, and every result in them is a pass or a skip. A worker that cannot start, crashes, panics, or leaves a missing or unreadable result file makes the run fail even if all other results are passes.",
  ["fault_sequences", "crash_points", "schedules"], "all combinations of worker faults (launch failure, any exit code or signal, missing/truncated/garbled result file) and outcomes",
  "Tests cover well-behaved workers; fault combinations at arbitrary points are not sampled.",
  ["src/native_runner.rs"],
  [("fault collection", "src/native_runner.rs: execute_native"), ("exit status acceptance", "src/native_runner.rs: run_worker"), ("result parsing", "src/native_runner.rs: parse_results_file")])
p("C10", "Aggregation counts every result once and lists every failure",
  "Every result delivered by a worker is counted in the total and in exactly one of passed, failed, error and skipped; an outcome the runner does not know counts as an error, never as a pass. Every failed or errored result is listed in the report by its node id, and the summary says FAILED exactly when the failed or error count is not zero.",
  ["inputs"], "all result sequences, including unknown outcome strings",
  "Unit tests aggregate a handful of results with the known outcomes.",
  ["src/native_runner.rs"],
  [("counting", "src/native_runner.rs: aggregate_results"), ("report", "src/native_runner.rs: print_summary, print_test_results"), ("reading", "src/native_runner.rs: parse_results_file")])
p("C11", "The Rust runner and the Python worker agree on their protocol",
  "Every option the native runner passes to a worker is one the worker accepts, with the meaning the runner intends, and every option the worker requires is passed. Every field of a result line the runner requires is always written by the worker under the same name and with a compatible type, every outcome the worker can write is one the runner knows, and every exit status the worker returns after writing its results is one the runner accepts.",
  ["programs", "inputs"], "both sides of the protocol, for every message either can produce",
  "The two sides are tested separately, each against its own idea of the protocol; no stable test runs them together.",
  ["src/native_runner.rs", "python/rtest/worker/__main__.py", "python/rtest/worker/runner.py"],
  [("sender of options", "src/native_runner.rs: run_worker"), ("receiver of options", "python/rtest/worker/__main__.py"), ("writer of results", "python/rtest/worker/runner.py"), ("reader of results", "src/native_runner.rs: TestResult")])
p("C12", "The worker reports every discovered test once and survives any test",
  "For every list of test files a worker runs, its result file holds exactly one record per discovered test case and one error record per file that could not be loaded. No behaviour of one test or module (any exception, including SystemExit) prevents the remaining files and tests from being run and reported, and the worker's exit status is 1 exactly if some record is a failure or an error.",
  ["inputs", "fault_sequences", "programs"], "all test modules, whatever they raise at import, construction, setup, call or teardown",
  "Tests use modules raising a few ordinary exceptions; other exception classes and positions are not sampled.",
  ["python/rtest/worker/runner.py", "python/rtest/worker/__main__.py"],
  [("file loop", "python/rtest/worker/runner.py: run_tests"), ("test loop and guard", "python/rtest/worker/runner.py: run_tests, _run_single_test"), ("result writing", "python/rtest/worker/runner.py: run_tests")])
p("C13", "A test's outcome reflects what its code raised",
  "A test that is run is reported as passed only if constructing the instance, setup, the test body and teardown all returned without raising; it is reported as failed if an assertion error escaped and as error for any other exception. Every failed or error record carries the traceback and the type of the exception that escaped, under the id of the test that raised it.",
  ["inputs", "fault_sequences"], "all exceptions from all phases of a test",
  "Tests raise a few exception types in the body; combinations over phases are not sampled.",
  ["python/rtest/worker/runner.py"],
  [("classification", "python/rtest/worker/runner.py: _run_single_test")])
p("C14", "Each test gets a fresh instance, setup first, teardown always, output captured",
  "The body run is the function or method collected under the test's name. Every test method runs on an instance created for that test alone, after setup has returned and with nothing run if setup raised. Once setup has completed, teardown runs exactly once whatever the test body does, and everything written to standard output or error during construction, setup, body and teardown is captured into that test's record only.",
  ["inputs", "fault_sequences"], "all test classes and all exceptions in setup, body and teardown",
  "Tests exercise a passing and a failing body; exception/phase combinations and sharing between tests are not sampled.",
  ["python/rtest/worker/runner.py"],
  [("fixture protocol", "python/rtest/worker/runner.py: _run_single_test")])
p("C15", "Case expansion runs every combination once with the right arguments",
  "A test with several cases decorators is run once for every element of the cartesian product of their value lists, each run receiving exactly the values of its combination under the declared argument names. A value for several argument names that is no tuple or list, or whose length does not match its argument names, is an error, never silently truncated or padded, and a test without cases runs exactly once without arguments.",
  ["inputs"], "all decorator stacks, argument names and value lists",
  "Tests use one or two decorators with a few values.",
  ["python/rtest/mark.py", "python/rtest/worker/runner.py", "src/python_discovery/cases.rs"],
  [("expansion", "python/rtest/mark.py: _expand_single_spec, expand_parametrize"), ("binding", "python/rtest/worker/runner.py: _discover_tests_in_module, _run_single_test"), ("collection-time expansion", "src/python_discovery/cases.rs: expand_cases, expand_single_spec")])
p("C16", "Case ids of one test are pairwise distinct",
  "The ids generated for the cases of one test are pairwise distinct, in collection and in the native worker, even when value ids repeat, when user-supplied ids collide with generated suffixes, or when ids of several decorators coincide once joined. One id is produced per case, so that no case is lost by naming.",
  ["inputs"], "all value lists and user-supplied ids",
  "Tests repeat one id a few times; collisions with a generated suffix or across the join are not sampled.",
  ["src/python_discovery/cases.rs", "python/rtest/mark.py"],
  [("deduplication", "src/python_discovery/cases.rs: deduplicate_ids; python/rtest/mark.py: _deduplicate_ids, expand_parametrize")])
p("C17", "A skipped test is reported as skipped and none of its code runs",
  "A test marked with a skip marker, itself or through its class, with or without a reason and with rtest's or pytest's marker, is reported as skipped with the reason given, the method's reason taking precedence over its class's. Nothing of it is executed: no instance, no setup, no body, no teardown. A test without such a marker is never reported as skipped.",
  ["inputs", "programs"], "all placements of markers on functions, methods and (inherited) classes",
  "Tests check some placements; that no code at all runs is not observed in general.",
  ["python/rtest/worker/runner.py", "python/rtest/mark.py"],
  [("skip check", "python/rtest/worker/runner.py: _is_skipped, _discover_tests_in_module, _run_single_test"), ("marker", "python/rtest/mark.py: Mark.skip")])
p("C18", "raises passes exactly when an expected exception with matching text escapes",
  "A raises block lets the test continue only if an instance of one of the expected exception types escaped the block and, when a pattern is given, its text matches the pattern somewhere. If nothing was raised, or the text does not match, an assertion error is raised; any other exception propagates unchanged. The caught exception is then available to the test, and invalid expectations are rejected before the block runs.",
  ["inputs"], "all expected types or tuples, patterns, raised exceptions",
  "Tests use a few exception types and patterns.",
  ["python/rtest/raises.py"],
  [("exit protocol", "python/rtest/raises.py: RaisesContext.__exit__"), ("validation", "python/rtest/raises.py: raises, RaisesContext.__init__")])
p("C19", "No collection error is lost, and one bad file does not hide the others",
  "Every file or directory that cannot be read, parsed or analysed during collection is reported as a collection error; nothing turns such an error into an empty result, except that directories the user may not read are passed over. After an error the remaining files are still collected, and no error is dropped between the collector and the final report.",
  ["inputs", "fault_sequences"], "all trees with any number of broken files at any position",
  "Collection tests need the ruff submodule, which is absent here, and use single broken files.",
  ["src/collection/nodes.rs", "src/collection_integration.rs", "src/python_discovery/semantic_analyzer.rs", "src/python_discovery/module_resolver.rs", "src/python_discovery/discovery.rs"],
  [("error conversion", "src/collection/nodes.rs: collect_one_node, perform_collect, Collector::collect"), ("accumulation", "src/collection_integration.rs: collect_tests_rust, collect_items_recursive")])
p("C20", "Collection problems and collect-only never lead to test execution",
  "If a path given on the command line does not exist, the program exits with status 4 without running anything; if collection reports any error, it exits with status 1 without running anything. With --collect-only no test process is ever started, and an unsupported distribution mode or process count is rejected with a non-zero status before collection. The statuses named in the Python package are those the program exits with.",
  ["inputs", "configurations"], "all command lines and trees, both runners",
  "Command-line tests need the compiled extension, which is not built here.",
  ["src/pyo3.rs", "src/cli.rs", "python/rtest/exit_code.py"],
  [("gates", "src/pyo3.rs: main_cli_with_args, run_tests, handle_collection_error"), ("codes", "src/cli.rs: exit_codes; python/rtest/exit_code.py")])
p("C21", "A test whose cases cannot be expanded is still collected, with a warning",
  "Every discovered test yields at least one collected item: when its cases cannot be determined statically it is collected once under its plain id and a warning naming it is reported. Otherwise it yields exactly one item per case, under its plain id followed by the case id in brackets.",
  ["inputs", "programs"], "all decorator expressions",
  "The expansion tests need ruff and sample some expression kinds.",
  ["src/python_discovery/cases.rs", "src/python_discovery/discovery.rs", "src/collection/nodes.rs", "src/collection_integration.rs"],
  [("fallback", "src/python_discovery/discovery.rs: test_info_to_functions"), ("warning", "src/collection/nodes.rs: Module::collect"), ("reasons", "src/python_discovery/cases.rs: parse_single_decorator, combine_and_expand_specs")])
p("C22", "Only names matching the configured patterns are treated as tests",
  "A function, method or class is collected or run as a test only if its name matches one of the configured patterns for its kind, and every such function and class of a module is considered: matching any one pattern suffices. A class with a constructor of its own or inherited from a known base is not collected, and is reported in a warning.",
  ["inputs", "configurations"], "all names, pattern lists and class hierarchies",
  "Tests sample default patterns and a few custom ones.",
  ["src/python_discovery/semantic_analyzer.rs", "src/python_discovery/visitor.rs", "src/python_discovery/pattern.rs", "python/rtest/worker/runner.py"],
  [("pattern test", "src/python_discovery/semantic_analyzer.rs: is_test_function, is_test_class; python/rtest/worker/runner.py: _is_test_function, _is_test_class"), ("constructor check", "src/python_discovery/semantic_analyzer.rs: should_skip_class, base_class_has_init_impl")])
p("C23", "Analysis of any class hierarchy or import graph terminates",
  "Collection terminates for every set of source files, including classes that inherit from each other in a cycle, across modules or within one, and modules importing each other. Every recursive walk stops at a class it is already visiting.",
  ["programs", "inputs"], "all class and import graphs",
  "Tests contain a few cycles; termination quantifies over all graphs.",
  ["src/python_discovery/semantic_analyzer.rs", "src/python_discovery/module_resolver.rs", "src/collection_integration.rs", "src/collection/nodes.rs"],
  [("visited set", "src/python_discovery/semantic_analyzer.rs: base_class_has_init_impl, get_base_class_methods_impl"), ("load-once cache", "src/python_discovery/semantic_analyzer.rs: ensure_module_loaded; module_resolver.rs: resolve_and_load")])
p("C24", "No user input makes the program panic",
  "No command line, configuration file, directory tree, Python source, test id or worker output makes the Rust code panic: every unwrap, index, slice, division or subtraction on values derived from such input is protected by a check that makes its failure impossible. (Outside this property: a thread or allocation the system refuses, a closed standard output, the sum of counts passing the integer range, and recursion depth, which C23 covers.)",
  ["inputs", "configurations", "fault_sequences"], "all inputs to every function of the crate",
  "Panics hide on inputs nobody sampled (empty lists, multi-byte text, zero counts).",
  ["src/"],
  [("total functions", "every function reachable from the library's entry points")])
p("C25", "The same project gives the same plan on every run",
  "For an unchanged project, configuration and worker count, the collected list, the assignment of tests and files to numbered workers, the order of printed results and the exit code do not depend on hash seeds, directory enumeration order or which worker finishes first.",
  ["schedules", "configurations"], "all hash seeds, directory orders and completion orders",
  "A test run samples one hash seed and one enumeration order.",
  ["src/scheduler.rs", "src/subproject.rs", "src/native_runner.rs", "src/worker.rs", "src/collection/nodes.rs", "src/runner.rs", "src/pyo3.rs", "python/rtest/worker/runner.py"],
  [("ordered containers and sorting", "src/scheduler.rs: group_tests_by_key; src/native_runner.rs: collect_test_files; src/worker.rs: wait_for_all")])
p("C26", "Native workers never share a result file",
  "Each native worker writes to a result file of its own inside a temporary directory private to the run, the runner reads back exactly the files it assigned, and the directory outlives all workers and the reading of the results and is removed afterwards.",
  ["schedules", "inputs"], "all worker counts and interleavings",
  "A collision shows only under a particular count and timing.",
  ["src/native_runner.rs"],
  [("per-worker file", "src/native_runner.rs: execute_native")])
p("C27", "The runner cannot deadlock on its workers",
  "Whatever a worker process prints, the runner drains its output while waiting for it, starts all workers before waiting for any, and never waits for a worker while holding a lock another worker needs.",
  ["schedules", "inputs"], "all amounts of output and all interleavings",
  "Tests print a few bytes; a full pipe needs more than its capacity.",
  ["src/worker.rs", "src/native_runner.rs", "src/pytest_executor.rs", "src/runner.rs"],
  [("drain while waiting", "src/worker.rs: spawn_worker; src/native_runner.rs: run_worker"), ("start all before waiting", "src/runner.rs; src/native_runner.rs: execute_native")])
p("C28", "Test files are loaded as separate modules, whatever their names",
  "The worker loads every test file from its own path, as a module of its own whose name is derived from the file's whole path below the root and cannot coincide with an installed package's, so that files of the same name in different directories are all run. It removes the modules it loaded once the tests have run, and does not remove them before.",
  ["inputs", "programs"], "all file layouts, including equal base names",
  "Tests load one or two files.",
  ["python/rtest/worker/runner.py"],
  [("module naming and registration", "python/rtest/worker/runner.py: _import_module_from_file"), ("clean-up", "python/rtest/worker/runner.py: run_tests")])
p("C29", "Every pytest setting reaches the place it configures, and no other",
  "Each of the settings testpaths, python_files, python_classes and python_functions in the project's pytest section is read from its own key (an array of strings, or one string of values separated by whitespace), whole and unchanged, and used for its own purpose: the paths for choosing where to collect and execute when no path is given, the file patterns for choosing files, the class and function patterns for the worker's class and function patterns. A missing or malformed setting falls back to that setting's documented default without affecting the others.",
  ["configurations", "inputs"], "all combinations of present, missing and malformed settings",
  "Tests read a few well-formed files; crossed wiring between stages has no test.",
  ["src/config.rs", "src/pyo3.rs", "src/native_runner.rs", "src/collection/nodes.rs", "python/rtest/worker/__main__.py"],
  [("reading", "src/config.rs: read_pytest_config"), ("routing", "src/pyo3.rs: main_cli_with_args; src/native_runner.rs: run_worker; python/rtest/worker/__main__.py: main")])
p("C30", "Marker decorators keep the decorated object and all earlier marks",
  "Applying a cases or skip decorator returns the decorated function or class itself and keeps every mark applied before; stacked cases decorators accumulate in application order. Decorating one object never changes the marks of another, and value lists given as one-shot iterables are read once.",
  ["inputs", "programs"], "all stacks of decorators on functions and (derived) classes",
  "Tests stack two decorators on functions.",
  ["python/rtest/mark.py"],
  [("decorators", "python/rtest/mark.py: Mark.cases, Mark.skip")])
p("C31", "Every advertised distribution mode exists, and nothing else is accepted",
  "The distribution modes the command line accepts are exactly those that can be turned into a scheduler, each name selects the mode of that name and prints back as the same name. Every mode is served by its own strategy (the mode that distributes nothing makes at most one batch), and an unknown name is an error, never a default.",
  ["configurations", "programs"], "all mode names",
  "Tests list the names by hand on each side.",
  ["src/scheduler.rs", "src/cli.rs", "src/runner.rs"],
  [("name tables", "src/scheduler.rs: FromStr, Display, create_scheduler; src/cli.rs: validate_dist")])
p("C32", "The native file scan finds every matching file once, and only those",
  "For the given paths (or the project root, when none is given), the files executed natively are exactly the regular files ending in .py whose name matches one of the file patterns, either named directly or found at any depth below a named directory, without entering hidden and cache directories (name starting with a dot, or __pycache__; the named directory itself may be one), without hidden files found there and without following symbolic links. A relative path is taken from the project root. A directory that cannot be read, or a name that is not there, does not end the scan of the others; each file is in the result once, and the result is sorted.",
  ["inputs", "configurations"], "all trees, path lists and pattern lists",
  "Tests scan small trees.",
  ["src/native_runner.rs"],
  [("scan", "src/native_runner.rs: collect_test_files, collect_test_files_in_dir, is_test_file, is_hidden_or_ignored")])
p("C33", "rtest itself writes nothing into the project",
  "Apart from what the tests, pytest and Python's bytecode cache do, the program writes, renames or deletes no file outside the temporary directory it creates for the run: the only file the worker writes is the result file named on its command line, and the Rust side writes no file at all.",
  ["inputs", "configurations", "programs"], "all runs",
  "Tests do not watch the file system.",
  ["src/", "python/rtest/"],
  [("result file", "python/rtest/worker/runner.py: run_tests"), ("temporary directory", "src/native_runner.rs: execute_native")])
p("C34", "Collected ids equal the ids pytest would print",
  "For every project pytest can collect, the collected node ids are the same strings, in the same order, as those printed by pytest's own collection.",
  ["programs", "inputs"], "all Python projects",
  "Tests compare a few projects.",
  ["src/python_discovery/", "src/collection/"],
  [("id construction", "src/python_discovery/cases.rs: literal_to_id_string; src/python_discovery/discovery.rs: test_info_to_functions")])
p("C35", "The native runner and pytest report the same outcome for every test",
  "For every test that both can run, the native runner's outcome is the outcome pytest reports.",
  ["programs"], "all test programs",
  "Tests compare a few programs.",
  ["python/rtest/worker/runner.py"],
  [("execution", "python/rtest/worker/runner.py: _run_single_test")])
p("C36", "Work is balanced over the workers",
  "In the load and worksteal modes the largest and the smallest batch differ by at most one test, and in a native run the largest and the smallest shard differ by at most one file.",
  ["inputs", "configurations"], "all list lengths and worker counts",
  "Tests sample a few lengths.",
  ["src/scheduler.rs", "src/native_runner.rs"],
  [("round robin", "src/scheduler.rs: LoadScheduler, WorkStealScheduler; src/native_runner.rs: shard_files")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
