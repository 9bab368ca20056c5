#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""

import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": hook,
            },
        }
    )


NR = "src/native_runner.rs"
PR = "python/rtest/worker/runner.py"
PM = "python/rtest/worker/__main__.py"
MK = "python/rtest/mark.py"
RS = "python/rtest/raises.py"
RUN = "src/runner.rs"
WK = "src/worker.rs"
SC = "src/scheduler.rs"
SP = "src/subproject.rs"

prop(
    "C01",
    "A native run is green only if every worker delivered a clean, complete report",
    "A native run ends with exit status 0 (and says PASSED) only if every worker it launched ended normally and delivered a complete, readable report in which no test failed or errored. If a worker cannot be started, is killed, exits early with any status, dies while reporting, or leaves a missing, truncated or unreadable report, the run ends non-zero and does not say PASSED. A run whose workers all deliver clean reports ends with status 0.",
    ["crash_points", "fault_sequences", "histories"],
    "every way each of the 1..N workers of a run can end (exit status, signal, spawn failure) combined with every state its report can be in, and every mix of such workers",
    "The Rust unit tests stop at sharding and parsing helpers; no test kills a worker, lets a test call sys.exit/os._exit, or corrupts a report, and the combinations of (worker ending x report state x other workers) are unbounded.",
    [NR, PM, PR],
    [
        (
            "worker exit status is inspected and an abnormal one recorded as an error",
            f"{NR}: run_worker / execute_native",
        ),
        (
            "report files are parsed and a non-empty set of failures, errors or worker errors gives status 1",
            f"{NR}: execute_native",
        ),
        ("the worker writes its report after all tests and exits 1 iff something failed", f"{PR}: run_tests"),
    ],
    [
        "exit status and printed summary of a native run with scripted or sabotaged workers",
        "exit status of the command line with hostile test files",
    ],
)

prop(
    "C02",
    "Every selected test file goes to exactly one worker, once",
    "For every list of test files and every requested worker count, a native run hands each file to exactly one worker exactly once, launches no more workers than requested (at least one) nor than there are files, keeps the listed order within each worker, and gives workers numbers of files that differ by at most one. Each worker is told the run's root directory and exactly the configured class and function name patterns, and works in the root directory, in the environment of the run.",
    ["inputs", "configurations", "schedules"],
    "all file lists (any names, including spaces, dashes and non-ASCII), worker counts from 0 to far above the number of files, and pattern lists",
    "Unit tests sample six small file lists on the sharding helper and never observe what the launched worker processes actually received.",
    [NR, PM],
    [
        ("round-robin sharding", f"{NR}: shard_files"),
        ("command line assembled for each worker", f"{NR}: run_worker"),
        ("worker argument parsing", PM),
    ],
    ["arguments and working directory recorded by stand-in worker executables"],
)

prop(
    "C03",
    "Native results do not depend on how many workers run them",
    "For test files whose tests do not depend on each other, the set of executed tests, each test's outcome, the summary counts and the exit status of a native run are the same for every worker count. Each test runs exactly once, in whichever worker.",
    ["schedules", "configurations", "programs"],
    "all suites of mutually independent tests, all worker counts, all process schedules",
    "Existing tests run tiny suites with one worker or check one count; equality over suites, worker counts and schedules is never compared.",
    [NR, PR],
    [
        ("file-level sharding, one process per shard", f"{NR}: execute_native"),
        ("per-file import under a unique module name", f"{PR}: _import_module_from_file"),
    ],
    ["execution log written by the tests themselves", "summary line and exit status"],
)

prop(
    "C04",
    "The native summary conserves what the workers reported",
    "The passed, failed, error and skipped counts in the summary of a native run equal the numbers of such results over all the workers' reports, whatever their size, order or content. Every failed or errored test is listed with its identifier and its traceback or reason, and no test that passed or was skipped is.",
    ["inputs", "histories"],
    "all multisets of results over all workers: any outcomes, identifiers and output with any Unicode, blank lines, large outputs, empty reports",
    "Unit tests aggregate a handful of hand-written results; conservation for arbitrary reports spread over arbitrary workers is not tested.",
    [NR],
    [
        ("line-by-line report parsing", f"{NR}: parse_results_file"),
        ("aggregation", f"{NR}: aggregate_results"),
        ("summary printing", f"{NR}: print_summary"),
    ],
    ["stdout of native runs over scripted workers"],
)

prop(
    "C05",
    "Each test yields exactly one result with the truthful outcome",
    "The worker reports exactly one result per discovered test case, and the outcome says what the body did: passed if it returned, failed if it raised an assertion error (or a subclass), error (naming the exception type) if any other exception escaped, including exits requested by the test itself. A test whose body a plain call does not run (coroutine or generator) is an error. Nothing about how a test ends or what it does with its output streams, short of ending the process outright or a keyboard interrupt, removes or changes another test's result, and the worker's exit status is 1 exactly if some result is failed or error.",
    ["programs", "inputs", "histories"],
    "all test bodies (returning, raising any exception class including ones not derived from Exception, exiting, closing or replacing output streams, emitting unencodable text) in any order and mixture",
    "Existing tests try one assertion failure and one ordinary exception each; the outcome mapping must hold for every exception class, and isolation for every mixture of misbehaving neighbours.",
    [PR],
    [
        ("per-test try/except around the call", f"{PR}: _run_single_test"),
        ("results gathered and written once", f"{PR}: run_tests"),
    ],
    ["the worker's JSONL report", "the worker's exit status", "execution log written by the tests"],
)

prop(
    "C06",
    "The worker runs exactly the tests the name patterns select",
    "In each file the worker runs exactly the module-level functions and the methods (own or inherited, the most derived definition winning) of module-level classes without a constructor (__init__, own or inherited) and not opted out by `__test__ = False` (own, inherited or the module's) whose names match the configured patterns as in pytest (a prefix, or a shell-style pattern if it has wildcards), each under the identifier file::[class::]name[case]. Nothing else in the file is called as a test, and no identifier is reported twice in one file.",
    ["programs", "configurations"],
    "all modules built from functions, classes, inheritance (multi-level, multiple, diamond, overridden), decorated functions, aliases, non-function attributes; all pattern sets",
    "Existing tests check a few fixed modules with default or one custom pattern; the discovery rule ranges over all module shapes and pattern sets.",
    [PR],
    [
        ("pattern match on names", f"{PR}: _matches"),
        ("walk over the method resolution order with a seen set", f"{PR}: _discover_tests_in_module"),
    ],
    ["the worker's JSONL report", "execution log written by the tests"],
)

prop(
    "C07",
    "Setup and teardown bracket every test on a fresh instance",
    "Every test method runs on its own new instance of its class, after that instance's setup hook (setup_method, or setUp if there is none) has completed and before its teardown hook (teardown_method, or tearDown), which runs exactly once whatever way the test body ends. If setup raises, neither the body nor the teardown runs and the test does not pass; if teardown raises, the test does not pass.",
    ["programs", "fault_sequences"],
    "all classes with any subset of the four hooks (own or inherited), any of constructor/setup/body/teardown raising any exception, any number of tests and cases per class",
    "Existing tests cover one happy path per hook; the protocol must hold for every combination of hooks and failure points and across all tests of a class.",
    [PR],
    [("setup, try/finally around the body, teardown", f"{PR}: _run_single_test")],
    ["execution log written by constructor, hooks and bodies", "the worker's JSONL report"],
)

prop(
    "C08",
    "Captured output is attributed to the test that wrote it",
    "Whatever text a test and its hooks write to standard output and standard error through Python's streams (print, sys.stdout, sys.stderr) appears in that test's own result, each stream complete, in order and kept apart, whether the test passes, fails or errors. Nothing written by one test appears in another test's result.",
    ["programs", "inputs"],
    "all outputs (any size, any Unicode including unpaired surrogates, no trailing newline), any outcome, any order of tests, streams closed or replaced by a test",
    "Existing tests capture one short ASCII line on one passing test.",
    [PR],
    [
        ("per-test stream redirection", f"{PR}: _run_single_test"),
        ("results serialised as JSON lines", f"{PR}: run_tests"),
        ("results parsed by the runner", f"{NR}: parse_results_file"),
    ],
    ["the worker's JSONL report"],
)

prop(
    "C09",
    "A file that cannot be imported never hides the others",
    "When importing a test file fails in any way short of ending the process, the worker reports exactly one error result for that file, naming the file and the exception type, and still runs every test of every other file. Files with equal base names in different directories, and files named like installed modules, are each run as themselves, and a file can import, by absolute name, modules that lie beside it or in the root.",
    ["programs", "fault_sequences", "configurations"],
    "all sets of files in any directory layout and order, each importing cleanly or failing by syntax error, exception of any class, exit request, undecodable bytes or a missing import",
    "Existing tests have one file with one import error; layouts with colliding names and failure kinds are not explored.",
    [PR],
    [
        ("module loaded from its path under a prefixed unique name", f"{PR}: _import_module_from_file"),
        ("per-file try/except", f"{PR}: run_tests"),
        ("root and test directories put on the import path", f"{PR}: run_tests"),
    ],
    ["the worker's JSONL report", "execution log written by the tests"],
)

prop(
    "C10",
    "Case decorators expand to the exact cartesian product, uniquely named",
    "A test with stacked case decorators, on itself and on its class, yields one case for every combination of one value per decorator, in a fixed order (the decorator nearest the function varying slowest), called with exactly the values of that combination bound to their argument names. Explicit ids are used where given and value-derived ids otherwise (with backslashes, control and non-ASCII characters escaped), and within one test all case ids are pairwise distinct; re-decorating or subclassing never changes the cases of another test.",
    ["inputs", "programs"],
    "all stacks of case decorators, argument name forms (string, list, tuple), values of any type, id lists shorter, equal or longer than the values, colliding and already suffixed ids",
    "Existing tests check fixed examples of two decorators; distinctness fails only for particular id combinations the tests do not contain.",
    [MK],
    [
        ("per-decorator expansion", f"{MK}: _expand_single_spec"),
        ("product and id joining", f"{MK}: expand_parametrize"),
        ("suffixing of duplicate ids", f"{MK}: _deduplicate_ids"),
    ],
    ["cases expanded from decorated functions", "arguments received by the tests when the worker runs them"],
)

prop(
    "C11",
    "A skipped test never runs and is reported as skipped with its reason",
    "A test carrying a skip marker itself or through its class (either marker flavour, reason given by keyword, position or not at all) is reported once per case as skipped with exactly that reason, and neither its body, nor its class's constructor, setup or teardown is run for it. A test that carries no marker is never skipped, and a method's own reason takes precedence over its class's.",
    ["programs", "inputs"],
    "all placements (function, method, class, base class, stacked with cases or other decorators), both flavours, all reason strings",
    "Existing tests check one function and one class marker.",
    [PR, MK],
    [("marker lookup", f"{PR}: _is_skipped"), ("early return before running", f"{PR}: _run_single_test")],
    ["the worker's JSONL report", "execution log written by the tests"],
)

prop(
    "C12",
    "rtest.raises accepts exactly the expected exceptions",
    "A raises block passes exactly if its body raises an instance of (one of) the expected type(s) whose text the pattern, if given, matches anywhere; the caught exception is then available as the context's value. It fails with an assertion error if nothing was raised or the text does not match, and lets an exception of any other type propagate unchanged; invalid expectations or patterns are rejected when the block is set up.",
    ["inputs", "programs"],
    "all exception classes and tuples of them (with subclasses, non-Exception bases, groups), all messages and patterns (strings, compiled, empty), nesting and reuse",
    "Existing tests give one example per branch; the acceptance relation ranges over all exception hierarchies, tuples and patterns.",
    [RS],
    [
        ("class check, regex search and value recording", f"{RS}: RaisesContext.__exit__"),
        ("validation", f"{RS}: raises"),
    ],
    ["behaviour of with-blocks driven over generated exceptions"],
)

prop(
    "C13",
    "Distribution neither loses, duplicates nor invents tests",
    "For every distribution mode, list of tests and worker count of at least one, distributing yields at most that many batches, none empty, which together contain every test of the list exactly as often as the list does and nothing else, with tests of one batch that belong to the same scope in their listed order. The same input always yields the same batches.",
    ["inputs", "configurations"],
    "all test lists (any identifiers, duplicates, empty list, nested scopes) x all five modes x all worker counts",
    "Unit tests check around twenty fixed lists.",
    [SC],
    [
        ("round-robin distribution", f"{SC}: LoadScheduler, WorkStealScheduler"),
        ("grouping then round-robin of groups", f"{SC}: distribute_groups_to_workers"),
    ],
    ["batches returned by the schedulers"],
)

prop(
    "C14",
    "Each distribution mode keeps its grouping and balance promise",
    "load and worksteal spread any list so that batch sizes differ by at most one and min(tests, workers) batches exist; loadfile never splits the tests of one file and loadscope never splits those of one class, nor the functions directly in one file, over two batches; both use min(groups, workers) batches with group counts differing by at most one; no puts everything in one batch in order. Unknown mode names are rejected.",
    ["inputs", "configurations"],
    "all lists of test identifiers with any mixture of files, classes, nested classes, case suffixes and identifiers containing '::' or brackets inside case ids; all worker counts",
    "Unit tests check fixed lists; grouping must hold for every interleaving of identifiers and every worker count.",
    [SC],
    [
        ("scope and file keys", f"{SC}: extract_scope, extract_file"),
        ("group assignment", f"{SC}: distribute_groups_to_workers"),
        ("mode names", f"{SC}: FromStr"),
    ],
    ["batches returned by the schedulers"],
)

prop(
    "C15",
    "The process pool returns one faithful result per task",
    "For every set of tasks run concurrently, waiting returns exactly one result per task, ordered by task number, with that process's own exit status (a killed or unstartable process gives a non-zero one) and its complete standard output and error, not mixed with any other task's. Each process receives exactly its arguments in order, its environment additions and its working directory, and waiting always finishes once the processes (and whatever they leave behind writing to their output) have ended, however much they write.",
    ["schedules", "inputs", "fault_sequences"],
    "all task sets (numbers in any order), output volumes up to several megabytes on both streams, exit statuses 0-255, signals, unstartable programs, timing",
    "Unit tests run echo twice.",
    [WK],
    [
        ("one thread per task collecting the process's output", f"{WK}: spawn_worker"),
        ("join and sort", f"{WK}: wait_for_all"),
    ],
    ["results returned by the pool over recording stand-in processes"],
)

prop(
    "C16",
    "Parallel pytest execution runs every collected test exactly once",
    "When collected tests are executed through parallel pytest processes, with or without subprojects and in every distribution mode and for every worker count (also zero), each collected test is passed to exactly one process exactly once, addressed correctly from that process's working directory, which is also its root directory, with the requested environment. The exit status is zero exactly if every process exited zero, and every process's output is shown.",
    ["schedules", "configurations", "fault_sequences", "inputs"],
    "all sets of collected tests over any project layout, distribution modes, worker counts, process endings (any status, signal, unstartable)",
    "Existing tests check that a parallel run passes on small projects; no test records what each process received or varies how processes end.",
    [RUN, WK, SC, SP],
    [
        ("batches per subproject turned into processes", f"{RUN}: execute_tests_parallel"),
        ("exit status folding", f"{RUN}: execute_tests_parallel"),
    ],
    [
        "arguments, directory and environment recorded by stand-in pytest executables",
        "exit status and output of the run",
    ],
)

prop(
    "C17",
    "Subproject grouping keeps every test and names the same file",
    "Grouping collected tests by subproject puts every test in exactly one group, in listed order: that of the nearest directory between the test's real file and the root, not including the root, that has its own project file, else that of the root. Re-addressing a group's tests for its subproject makes each identifier refer to the same file and the same test from there.",
    ["inputs", "configurations"],
    "all directory trees with project files at any depth, symlinked files and directories, names with special characters, tests in nested subprojects and in the root",
    "Existing tests use one or two fixed layouts without symlinks or nesting.",
    [SP],
    [
        ("walk up from the canonical file path", f"{SP}: find_subproject_root"),
        ("grouping", f"{SP}: group_tests_by_subproject"),
        ("path rewriting", f"{SP}: make_test_paths_relative"),
    ],
    ["groups and rewritten identifiers for generated trees on disk"],
)

prop(
    "C18",
    "Worker count resolution honours the request and the cap",
    "The number of workers is the requested number, or the number of physical or logical processors for auto and logical, or one if none was requested, capped by the maximum if one was given. Any other spelling of the number of processes is rejected instead of being guessed.",
    ["inputs", "configurations"],
    "all strings for the number of processes, all caps, all combinations with other options in any order and spelling",
    "Unit tests check about a dozen values.",
    ["src/utils.rs", "src/cli.rs"],
    [
        ("parsing of the count", "src/cli.rs: get_num_processes"),
        ("resolution and cap", "src/utils.rs: determine_worker_count"),
    ],
    ["resolved counts for parsed command lines"],
)

prop(
    "C19",
    "Project configuration is read faithfully and never breaks a run",
    "Whatever a project's configuration file contains (absent, unreadable, not text, invalid, of unexpected types), reading it never aborts, and the test paths, file, class and function patterns obtained are exactly the strings the configuration lists, in order, each setting independent of the others. A setting that is missing or not a list is empty, an element that is no string is left out, and both leave everything else intact.",
    ["inputs", "configurations", "fault_sequences"],
    "all file contents: any TOML document, any bytes, any types at any level of the relevant tables, directories or links instead of files",
    "Existing tests read about ten fixed valid documents.",
    ["src/config.rs"],
    [("tolerant parsing with per-setting fallback", "src/config.rs: read_pytest_config")],
    ["configuration obtained for generated files, compared with an independent TOML reader"],
)

prop(
    "C20",
    "Test file selection finds exactly the matching files, each once",
    "For every directory tree, list of path arguments and file patterns, the native runner selects exactly the Python files that are named by an argument, or lie below a named directory (the root if none is named) outside the directories collection does not enter (hidden ones, __pycache__, build, dist, venv, node_modules, *.egg, CVS, _darcs), and whose name matches some pattern. A directory that is named itself is entered whatever its name, and links are followed. Each file is selected once even if arguments overlap or spell it differently, in sorted order, and the same tree always gives the same list.",
    ["inputs", "configurations"],
    "all directory trees (hidden, nested, cache, symlinked entries, odd names), argument lists (relative, absolute, overlapping, missing), pattern lists",
    "Unit tests use two small trees; overlap and pattern variety are not covered.",
    [NR, "src/collection/utils.rs"],
    [
        ("tree walk with entry filter", f"{NR}: collect_test_files_in_dir"),
        ("pattern match", "src/collection/utils.rs: glob_match"),
        ("sorted, duplicate-free list", f"{NR}: collect_test_files"),
    ],
    ["file lists returned for generated trees, compared with an independent walk"],
)

prop(
    "C21",
    "A native run leaves nothing behind",
    "After a native run ends, normally or because workers failed or were killed, no temporary file or directory it created remains and no worker process it started is still running. It ends once its workers have ended, even if tests have left processes of their own running. The worker writes nothing but its report file and whatever the tests themselves write.",
    ["crash_points", "fault_sequences", "histories"],
    "all ways a run and its workers end",
    "No existing test looks for leftovers, and the interesting runs are those in which workers die.",
    [NR, PR],
    [("scoped temporary directory", f"{NR}: execute_native"), ("workers are waited for", f"{NR}: run_worker")],
    ["file system and process table before and after runs with scripted endings"],
)

prop(
    "C22",
    "Sequential pytest execution passes the tests through faithfully",
    "Executing collected tests with a single pytest process passes it every test identifier exactly once in order, the requested environment and extra arguments, and makes the given directory its working and root directory; its output goes to the user unchanged. The exit status is that process's, and non-zero if it cannot be started or is killed.",
    ["inputs", "fault_sequences"],
    "all lists of identifiers, environments, directories, exit statuses, signals and unstartable programs",
    "One unit test checks an unstartable program.",
    ["src/pytest_executor.rs", RUN],
    [
        ("command assembly and exit status mapping", "src/pytest_executor.rs: execute_tests"),
        ("environment pair parsing", f"{RUN}: PytestRunner::new"),
    ],
    ["arguments, environment and directory recorded by a stand-in pytest", "returned exit status"],
)

prop(
    "C23",
    "Static collection lists what pytest would collect",
    "For projects within the supported subset (plain functions and classes, inheritance resolvable in the project, literal parametrization), the identifiers listed by static collection are exactly those pytest collects from the same arguments, in any directory layout, without importing the project. A class with a constructor, its own or inherited, and a class or module with `__test__ = False` contribute nothing. A test is listed once, without case id and with a warning, if and only if its cases cannot be known without running the project; a class skipped for its constructor is warned about with its file and line.",
    ["programs", "configurations"],
    "all projects generated from the supported subset and all path arguments",
    "Existing tests compare fixed expectations; agreement with pytest over the space of projects is not sampled at all.",
    [
        "src/python_discovery/discovery.rs",
        "src/python_discovery/semantic_analyzer.rs",
        "src/python_discovery/cases.rs",
        "src/collection/nodes.rs",
        "src/collection_integration.rs",
    ],
    [
        ("syntax-tree discovery", "src/python_discovery/semantic_analyzer.rs"),
        ("case expansion", "src/python_discovery/cases.rs"),
        ("tree walk", "src/collection/nodes.rs"),
    ],
    ["--collect-only listing compared with pytest --collect-only"],
)

prop(
    "C24",
    "Collection errors are reported, isolated and stop execution",
    "A file that cannot be read or parsed, or whose test classes inherit from one in such a file, is reported as a collection error without hiding the tests of any other file, the run then executes nothing and exits 1; a path argument that does not exist makes the run exit 4 without executing anything; if nothing is collected the run says so and exits 0. Collection never crashes and always ends, whatever the files contain.",
    ["inputs", "programs", "fault_sequences"],
    "all trees mixing valid files with syntactically invalid, undecodable, empty, huge-nesting or unreadable ones; all argument lists; both runners",
    "Existing tests use one malformed file and one missing path.",
    ["src/collection_integration.rs", "src/pyo3.rs", "src/collection/nodes.rs"],
    [
        ("per-node collection report", "src/collection_integration.rs: collect_items_recursive"),
        ("exit before execution", "src/pyo3.rs: main_cli_with_args"),
    ],
    ["exit status and output of the command line", "execution log written by the tests"],
)

prop(
    "C25",
    "Collecting only never runs, imports or changes the project",
    "With collection only requested, for either runner and any other options, no code of the project is imported or executed, no test process is started, and no file is created, changed or removed. The listing is deterministic, free of duplicates, and its announced number of items and errors equals what it lists.",
    ["programs", "configurations"],
    "all projects whose modules have side effects at import, definition or call time, all option combinations",
    "Existing tests look at the listing only.",
    ["src/pyo3.rs", "src/collection_integration.rs", "src/collection/nodes.rs"],
    [
        ("return before execution", "src/pyo3.rs: main_cli_with_args"),
        ("static analysis instead of import", "src/python_discovery/discovery.rs"),
        ("counted display", "src/collection_integration.rs: display_collection_results"),
    ],
    ["file system snapshot and execution log around --collect-only", "listing of repeated runs"],
)

prop(
    "C26",
    "What native collection lists is what the native run executes",
    "For projects within the supported subset, the tests a native run executes, with their case ids, are exactly those the collection listing announced for the same arguments and configuration, each executed once. This holds for configured file, class and function patterns, path arguments and worker counts.",
    ["programs", "configurations"],
    "all projects of the supported subset with case decorators on functions, methods and classes, custom patterns and path arguments",
    "Listing and execution are implemented twice (statically in Rust, dynamically in Python); no existing test compares the two.",
    ["src/pyo3.rs", "src/collection/nodes.rs", "src/python_discovery/cases.rs", NR, PR, MK],
    [
        ("static expansion", "src/python_discovery/cases.rs"),
        ("dynamic expansion", MK),
        ("configured patterns on both sides", "src/config.rs"),
    ],
    ["--collect-only listing compared with the tests reported by a native run"],
)

prop(
    "C27",
    "The command line runs what it collected and tells the truth about it",
    "A complete command-line run with either runner executes exactly the collected tests, each once even if path arguments overlap, and exits 0 exactly if all of them passed or were skipped; environment additions asked for reach every test run through pytest. Contradictory or malformed options are rejected with a non-zero status before anything is executed.",
    ["programs", "configurations"],
    "all small projects with known outcomes, runners, worker counts (also zero), distribution modes, caps, path argument forms",
    "Existing end-to-end tests check a few command lines on fixed projects.",
    ["src/pyo3.rs", "src/cli.rs", RUN, NR, "python/rtest/__main__.py"],
    [("option validation", "src/cli.rs"), ("dispatch", "src/pyo3.rs: main_cli_with_args")],
    ["execution log written by the tests, exit status and summary of the command line"],
)

prop(
    "C28",
    "run_tests, called from Python, runs what it collected and returns how it ended",
    "run_tests, called with nothing, a directory (absolute or relative), files or directories in it, and pytest flags, runs exactly the tests that static collection lists for those paths in that directory (the current one if none is named), each once, through one pytest process which has that directory as working and root directory and is given exactly those flags, and returns that process's status (non-zero if it was killed). If collection has errors it returns 1, if nothing is collected it says so and returns 0, and if a path does not exist the status is 4; in these cases nothing is executed.",
    ["programs", "configurations"],
    "all small projects with known outcomes, spellings of the directory, current directories, paths and flags in any order",
    "Existing tests call it with one absolute directory and look at nothing but that it does not raise.",
    ["src/pyo3.rs", "src/pytest_executor.rs", "src/collection_integration.rs"],
    [
        ("arguments split into directory, paths and flags", "src/pyo3.rs: run_tests"),
        ("execution", "src/pytest_executor.rs"),
    ],
    ["execution log written by the tests, processes recorded by a stand-in, value returned"],
)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
