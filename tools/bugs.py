"""The planted bugs: edits of /repo, what they need to show, and a demonstration."""

BUGS = []
NR, SC, WK, RN = "src/native_runner.rs", "src/scheduler.rs", "src/worker.rs", "src/runner.rs"
SP, CF, CLI, PX = "src/subproject.rs", "src/config.rs", "src/cli.rs", "src/pytest_executor.rs"
RUN, MARK, RAI = "python/rtest/worker/runner.py", "python/rtest/mark.py", "python/rtest/raises.py"


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


NATIVE_DEMO = '''
from demolib import *
with Scratch() as d:
    exe = build(d)
    os.mkdir(f"{d}/p")
    fake = script(d, "fake", """%(fake)s""")
    def native(files, n, **k):
        return run_once(exe, d, "native", python=fake, root=f"{d}/p", n=n, python_files=["test_*.py"],
                        python_classes=["Test*"], python_functions=["test*"], files=files, **k)
%(body)s
'''
FAKE_HEAD = r"""
import json, os, sys, time
a = sys.argv[1:]
out = a[a.index("--out") + 1]
files = a[a.index("--") + 1:]
def res(nodeid, outcome, **k):
    return json.dumps(dict(nodeid=nodeid, outcome=outcome, duration_ms=1.0, stdout="", stderr="", error=None, error_type=None, **{}) | k)
"""


def native_demo(fake, body):
    fake = (FAKE_HEAD + fake).replace("\\", "\\\\").replace('"""', "'''")
    body = "".join(f"    {line}\n" for line in body.strip().splitlines())
    return NATIVE_DEMO % {"fake": fake, "body": body}


bug(
    "c01-truncated-report",
    "C01",
    [
        (
            NR,
            """        let result: TestResult = serde_json::from_str(&line)
            .map_err(|e| format!("Failed to parse JSON on line {}: {}", line_num + 1, e))?;
""",
            """        let result: TestResult = match serde_json::from_str::<TestResult>(&line) {
            Ok(result) => result,
            // The worker was interrupted while writing: keep what it managed to report
            Err(e) if e.is_eof() => break,
            Err(e) => {
                return Err(format!(
                    "Failed to parse JSON on line {}: {}",
                    line_num + 1,
                    e
                ))
            }
        };
""",
        )
    ],
    "a worker whose report ends in the middle of a line although it exits with the status of a passing run (full disk, "
    "interrupted write)",
    "a truncated report is accepted, so the run says PASSED although results are missing",
    native_demo(
        r"""
with open(out, "w") as f:
    f.write(res("test_a.py::test_a", "passed") + "\n" + res("test_a.py::test_b", "passed")[:30])
""",
        """
code, o, e = native([f"{d}/p/test_a.py"], 1)
check(code != 0 and "PASSED" not in o, (code, o))
""",
    ),
)

bug(
    "c02-many-files",
    "C02",
    [
        (
            NR,
            "        shards[i % actual_workers].push(file);",
            "        shards[usize::from(i as u8) % actual_workers].push(file);",
        )
    ],
    "more than 256 test files and a worker count that does not divide 256",
    "the numbers of files of the workers differ by more than one",
    native_demo(
        r"""
with open(out, "w") as f:
    pass
with open(os.environ["LOG"], "a") as f:
    f.write(f"{len(files)}\n")
""",
        """
os.environ["LOG"] = f"{d}/log"
native([f"{d}/p/test_{i}.py" for i in range(300)], 3)
counts = [int(x) for x in open(f"{d}/log")]
check(max(counts) - min(counts) <= 1 and sum(counts) == 300, counts)
""",
    ),
)

bug(
    "c03-sibling-path",
    "C03",
    [
        (
            RUN,
            "    test_dirs = {str(f.parent.resolve()) for f in test_files}\n",
            "    test_dirs = {str(f.parent.resolve()) for f in test_files[:1]}\n",
        )
    ],
    "several workers or several directories: a file that imports a module beside it, in a worker whose first file lies elsewhere",
    "the outcome of a test depends on which other files its worker got",
    """
from demolib import *
files = {"a/test_a.py": "def test_a(): pass\\n", "b/helper_b.py": "X = 1\\n",
         "b/test_b.py": "from helper_b import X\\ndef test_b(): assert X\\n"}
alone = outcomes(worker(files, ["b/test_b.py"])[1])
both = outcomes(worker(files, ["a/test_a.py", "b/test_b.py"])[1])
check(alone == {"b/test_b.py::test_b": "passed"}, alone)
check(both.get("b/test_b.py::test_b") == "passed", both)
""",
)

bug(
    "c04-long-failures",
    "C04",
    [
        (
            NR,
            """        for line in traceback.lines() {
            println!("    {}", line);
        }
""",
            """        let lines: Vec<&str> = traceback.lines().collect();
        // A recursion error repeats its frames: the end tells what happened
        for line in &lines[lines.len().saturating_sub(200)..] {
            println!("    {}", line);
        }
""",
        )
    ],
    "a traceback of more than 200 lines",
    "the start of a long traceback is not shown",
    native_demo(
        r"""
with open(out, "w") as f:
    f.write(res("test_a.py::test_a", "failed", error={"traceback": "\n".join(f"line-{i}." for i in range(900))}) + "\n")
sys.exit(1)
""",
        """
code, o, e = native([f"{d}/p/test_a.py"], 1)
check(all(f"line-{i}." in o for i in range(900)), "lines of the traceback are missing")
""",
    ),
)

bug(
    "c04-equal-results",
    "C04",
    [
        (
            NR,
            """    for results in all_results {
        for result in results {
            aggregated.total += 1;
""",
            """    let mut seen = std::collections::HashSet::new();
    for results in all_results {
        for result in results {
            // Linked files are reported by every worker that got one of their names
            if result.outcome == "passed" && !seen.insert(result.nodeid.clone()) {
                continue;
            }
            aggregated.total += 1;
""",
        )
    ],
    "two passed results with the same identifier in the reports",
    "a result is left out of the counts",
    native_demo(
        r"""
with open(out, "w") as f:
    f.write((res("test_a.py::test_a", "passed") + "\n") * 2)
""",
        """
code, o, e = native([f"{d}/p/test_a.py"], 1)
check("2 passed" in o, o)
""",
    ),
)

bug(
    "c05-assertion-subclass",
    "C05",
    [
        (
            RUN,
            """    except AssertionError as e:
        outcome = "failed"
        error_info = {"traceback": _format_traceback(e)}
        error_type = type(e).__name__
""",
            """    except AssertionError as e:
        outcome = "failed" if type(e) is AssertionError else "error"
        error_info = {"traceback": _format_traceback(e)}
        error_type = type(e).__name__
""",
        )
    ],
    "a test that raises a subclass of AssertionError",
    "such a test is reported as an error instead of failed",
    """
from demolib import *
rc, res = worker({"test_a.py": "class Mismatch(AssertionError): pass\\ndef test_a():\\n    raise Mismatch('no')\\n"})
check(outcomes(res) == {"test_a.py::test_a": "failed"}, res)
""",
)

bug(
    "c05-return-value",
    "C05",
    [
        (
            RUN,
            """    has_failures = any(r.outcome in ("failed", "error") for r in results)
    return 1 if has_failures else 0
""",
            """    has_failures = any(r.outcome in ("failed", "error") for r in all_results_of(results))
    return 1 if has_failures else 0


def all_results_of(results: list[TestResult]) -> list[TestResult]:
    \"\"\"The latest result of each test.\"\"\"
    latest: dict[str, TestResult] = {}
    for result in results:
        latest[result.nodeid.partition("[")[0]] = result
    return list(latest.values())
""",
        )
    ],
    "a test with cases of which an earlier one fails and the last one passes",
    "the worker exits 0 although a case failed",
    """
from demolib import *
rc, res = worker({"test_a.py": "import rtest\\n@rtest.mark.cases('x', [1, 2, 3])\\ndef test_a(x):\\n    assert x != 2\\n"})
check(rc == 1, rc)
""",
)

bug(
    "c06-grandparent",
    "C06",
    [
        (
            RUN,
            "            for base_class in inspect.getmro(class_obj):\n",
            "            for base_class in dict.fromkeys((class_obj, *class_obj.__bases__, *inspect.getmro(class_obj)[:3])):\n",
        )
    ],
    "a test inherited over at least three generations",
    "the test is not run",
    """
from demolib import *
rc, res = worker({"test_a.py": "class TestA:\\n    def test_x(self): pass\\nclass TestB(TestA): pass\\nclass TestC(TestB): pass\\nclass TestD(TestC):\\n    def test_y(self): pass\\n"})
check(sorted(n for n in outcomes(res) if "TestD" in n) == ["test_a.py::TestD::test_x", "test_a.py::TestD::test_y"], res)
""",
)

bug(
    "c06-lambda",
    "C06",
    [
        (
            RUN,
            """    if not inspect.isfunction(obj):
        return False
""",
            """    if not inspect.isfunction(obj) or not obj.__name__.isidentifier():
        return False
""",
        )
    ],
    "a module-level test that is a lambda expression",
    "it is not run",
    """
from demolib import *
rc, res = worker({"test_a.py": "test_l = lambda: None\\ndef test_f(): pass\\n"})
check(sorted(outcomes(res)) == ["test_a.py::test_f", "test_a.py::test_l"], res)
""",
)

bug(
    "c07-teardown-after-failed-setup",
    "C07",
    [
        (
            RUN,
            """                if setup is not None:
                    setup()
                try:
                    bound_method: Callable[..., object] = getattr(instance, test_case.method_name)
""",
            """                try:
                    if setup is not None:
                        setup()
                    bound_method: Callable[..., object] = getattr(instance, test_case.method_name)
""",
        )
    ],
    "a setup hook that raises, in a class with a teardown hook",
    "the teardown hook runs although setup did not complete",
    """
from demolib import *
rc, res = worker({"test_a.py": "import os\\nlog = []\\nclass TestA:\\n    def setup_method(self): raise ValueError\\n    def teardown_method(self): log.append(1)\\n    def test_x(self): pass\\nclass TestZ:\\n    def test_z(self): assert not log\\n"})
check(outcomes(res)["test_a.py::TestZ::test_z"] == "passed", res)
""",
)

bug(
    "c07-teardown-on-exit",
    "C07",
    [
        (
            RUN,
            """                finally:
                    teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
                        instance, "tearDown", None
                    )
                    if teardown is not None:
                        teardown()
""",
            """                except Exception:
                    self_teardown(instance)
                    raise
                else:
                    self_teardown(instance)
""",
        ),
        (
            RUN,
            """def _encodable(value: object) -> object:
""",
            """def self_teardown(instance: object) -> None:
    \"\"\"Run the teardown hook of an instance, if it has one.\"\"\"
    teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
        instance, "tearDown", None
    )
    if teardown is not None:
        teardown()


def _encodable(value: object) -> object:
""",
        ),
    ],
    "a test body that ends with an exception outside Exception (SystemExit, pytest.fail)",
    "teardown is not run for it",
    """
from demolib import *
rc, res = worker({"test_a.py": "import sys\\nlog = []\\nclass TestA:\\n    def teardown_method(self): log.append(1)\\n    def test_x(self): sys.exit(3)\\nclass TestZ:\\n    def test_z(self): assert log == [1]\\n"})
check(outcomes(res)["test_a.py::TestZ::test_z"] == "passed", res)
""",
)

bug(
    "c08-teardown-output",
    "C08",
    [
        (
            RUN,
            """                    if teardown is not None:
                        teardown()
""",
            """                    if teardown is not None:
                        with contextlib.redirect_stdout(stderr_capture):
                            teardown()
""",
        )
    ],
    "a teardown hook that prints",
    "what teardown prints appears in the test's standard error instead of its output",
    """
from demolib import *
rc, res = worker({"test_a.py": "class TestA:\\n    def teardown_method(self): print('bye')\\n    def test_x(self): print('hi')\\n"})
check(res[0]["stdout"] == "hi\\nbye\\n" and res[0]["stderr"] == "", res)
""",
)

bug(
    "c09-same-name",
    "C09",
    [
        (
            RUN,
            """    sys.modules[module_name] = module
    spec.loader.exec_module(module)
""",
            """    if module_name not in sys.modules:
        sys.modules[module_name] = module
    spec.loader.exec_module(module)
""",
        ),
        (
            RUN,
            """    if module_name.endswith(".py"):
        module_name = module_name[:-3]
""",
            """    if module_name.endswith(".py"):
        module_name = module_name[:-3].rpartition(".")[2]
""",
        ),
    ],
    "two test files with the same base name, of which the later looks itself up in sys.modules (pickle, dataclasses with "
    "deferred annotations)",
    "the later file finds the other file's definitions instead of its own",
    """
from demolib import *
src = "import sys\\nV = %d\\ndef test_p():\\n    assert sys.modules[__name__].V == %d\\n"
rc, res = worker({"a/test_a.py": src % (1, 1), "b/test_a.py": src % (2, 2)})
check(set(outcomes(res).values()) == {"passed"} and len(res) == 2, res)
""",
)

bug(
    "c09-import-output",
    "C09",
    [
        (
            RUN,
            """                    error={"traceback": _format_traceback(e)},
                    error_type=type(e).__name__,
                )
            )

    all_test_cases""",
            """                    error={"traceback": _format_traceback(e)},
                    error_type=type(e).__name__,
                )
            )
            if isinstance(e, MemoryError | RecursionError):
                break  # the interpreter is in no state to import anything else

    all_test_cases""",
        )
    ],
    "a test file whose import raises RecursionError or MemoryError",
    "the files after it are never imported and none of their tests is reported",
    """
from demolib import *
rc, res = worker({"test_a.py": "def f(): f()\\nf()\\n", "test_b.py": "def test_b(): pass\\n"})
check(outcomes(res) == {"test_a.py::IMPORT_ERROR": "error", "test_b.py::test_b": "passed"}, outcomes(res))
""",
)

bug(
    "c10-one-tuple",
    "C10",
    [
        (
            MARK,
            """            kwargs: dict[str, object] = {argnames[0]: value}
""",
            """            if isinstance(value, tuple) and len(value) == num_args:
                value = value[0]
            kwargs: dict[str, object] = {argnames[0]: value}
""",
        )
    ],
    "a decorator with one argument name and a value that is a tuple of one element",
    "the test is called with the element instead of the tuple",
    """
from demolib import *
rc, res = worker({"test_a.py": "import rtest\\n@rtest.mark.cases('x', [(1,), (1, 2)])\\ndef test_a(x):\\n    assert isinstance(x, tuple)\\n"})
check(set(outcomes(res).values()) == {"passed"}, outcomes(res))
""",
)

bug(
    "c10-shared-names",
    "C10",
    [
        (
            MARK,
            """            merged_kwargs.update(case.kwargs)
        result.append(ExpandedCase("-".join(tokens), merged_kwargs))
""",
            """            merged_kwargs.update(case.kwargs)
        if any(case_.case_id == "-".join(tokens) and case_.kwargs == merged_kwargs for case_ in result):
            continue  # the same case again
        result.append(ExpandedCase("-".join(tokens), merged_kwargs))
""",
        )
    ],
    "two stacked decorators whose joined ids and values coincide (or one listing a value twice after joining)",
    "a combination of the product is left out",
    """
from demolib import *
rc, res = worker({"test_a.py": "import rtest\\n@rtest.mark.cases('y', ['b-c', 'c'], ids=['b-c', 'c'])\\n@rtest.mark.cases('x', ['a', 'a-b'], ids=['a', 'a-b'])\\ndef test_a(x, y):\\n    pass\\n@rtest.mark.cases('x', [1, 2])\\n@rtest.mark.cases('x', [7, 7, 8, 8], ids=['p', 'p-1', 'q', 'q'])\\ndef test_b(x):\\n    pass\\n@rtest.mark.cases('x', [5, 5], ids=['1-2', '2'])\\n@rtest.mark.cases('x', [0, 0], ids=['1', '1-1'])\\ndef test_c(x):\\n    pass\\n@rtest.mark.cases('x', [5, 5], ids=['1-2', '2'])\\n@rtest.mark.cases('y', [0, 0], ids=['1', '1-1'])\\ndef test_d(x, y):\\n    pass\\n@rtest.mark.cases('x', [5, 5], ids=['b-c', 'c'])\\n@rtest.mark.cases('y', [0, 0], ids=['a', 'a-b'])\\ndef test_e(x, y):\\n    pass\\n"})
check(len(res) == 4 + 8 + 4 + 4 + 4, sorted(outcomes(res)))
""",
)

bug(
    "c11-inherited-skip",
    "C11",
    [
        (
            RUN,
            """    skip_flag: bool = bool(getattr(obj, "__rtest_skip__", False))
""",
            """    skip_flag: bool = "__rtest_skip__" in vars(obj) and bool(vars(obj)["__rtest_skip__"])
""",
        )
    ],
    "a class that inherits from a class skipped with rtest.mark.skip",
    "tests of the subclass run although their class carries the marker by inheritance",
    """
from demolib import *
rc, res = worker({"test_a.py": "import rtest\\n@rtest.mark.skip('no')\\nclass TestA:\\n    def test_x(self): assert 0\\nclass TestB(TestA):\\n    pass\\n"})
check(set(outcomes(res).values()) == {"skipped"}, outcomes(res))
""",
)

bug(
    "c12-custom-text",
    "C12",
    [
        (
            RAI,
            "            value_str = str(exc_val)\n",
            "            value_str = str(exc_val.args[0]) if exc_val is not None and len(exc_val.args) == 1 else str(exc_val)\n",
        )
    ],
    "an exception whose text is not its only argument (KeyError, a class with its own __str__)",
    "the pattern is matched against the argument instead of the exception's text",
    """
from demolib import *
sys.path.insert(0, f"{REPO}/python")
import importlib.util
spec = importlib.util.spec_from_file_location("raises_", f"{REPO}/python/rtest/raises.py")
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
class E(Exception):
    def __str__(self): return f"custom {self.args[0]} text"
try:
    with m.raises(E, match="custom 3 text"):
        raise E(3)
    with m.raises(KeyError, match="^'k'$"):
        raise KeyError("k")
except AssertionError as e:
    check(False, e)
""",
)

DIST = """
from demolib import *
with Scratch() as d:
    exe = build(d)
    def dist(mode, tests, n):
        return calls(exe, [dict(op="distribute", mode=mode, tests=tests, n=n)])[0]["batches"]
"""

bug(
    "c13-sorted-scope",
    "C13",
    [
        (
            SC,
            "    groups.into_values().collect()\n",
            """    groups
        .into_values()
        .map(|mut group| {
            // Neighbours share fixtures
            if group.len() > 8 {
                group.sort();
            }
            group
        })
        .collect()
""",
        )
    ],
    "a file or class with more than eight tests not listed in alphabetical order",
    "the listed order of the tests of one scope is lost",
    DIST
    + """
    t = [f"test_a.py::test_{i}" for i in range(12)]
    b = dist("loadfile", t + ["test_b.py::test_x"], 2)
    check(t in b, b)
""",
)

bug(
    "c13-worksteal-tail",
    "C13",
    [
        (
            SC,
            """        let mut workers: Vec<Vec<String>> = (0..num_workers).map(|_| Vec::new()).collect();

        // Round-robin""",
            """        let mut workers: Vec<Vec<String>> = (0..num_workers)
            .map(|_| Vec::with_capacity(tests.len() / num_workers))
            .collect();
        let tests = {
            // Retried tests are listed again: one run of each suffices
            let mut tests = tests;
            tests.dedup();
            tests
        };

        // Round-robin""",
        )
    ],
    "worksteal distribution of a list with the same test twice in a row",
    "one of the two listed occurrences is lost",
    DIST
    + """
    b = dist("worksteal", ["t.py::a", "t.py::a", "t.py::b"], 2)
    check(sorted(sum(b, [])) == ["t.py::a", "t.py::a", "t.py::b"], b)
""",
)

bug(
    "c14-least-loaded",
    "C14",
    [
        (
            SC,
            """    for (i, group) in groups.into_iter().enumerate() {
        workers[i % num_workers].extend(group);
    }
""",
            """    for (i, group) in groups.into_iter().enumerate() {
        let next = i % num_workers;
        // A long group fills its worker: leave it out for a round if the following one is still empty
        let target = if workers[next].len() > 3 * group.len() + 8 {
            (next + 1) % num_workers
        } else {
            next
        };
        workers[target].extend(group);
    }
""",
        )
    ],
    "loadfile or loadscope with a group much longer than the later ones",
    "the numbers of groups of the workers differ by more than one",
    DIST
    + """
    t = [f"a.py::t{i}" for i in range(40)] + [f"{c}.py::t" for c in "bcdefghi"]
    b = dist("loadfile", t, 2)
    g = [len({x.split("::")[0] for x in y}) for y in b]
    check(max(g) - min(g) <= 1, g)
""",
)

bug(
    "c15-signal-status",
    "C15",
    [
        (
            WK,
            "                    exit_code: output.status.code().unwrap_or(-1),\n",
            "                    exit_code: output.status.code().unwrap_or(i32::from(output.stdout.is_empty()) * -1),\n",
        )
    ],
    "a pytest process killed by a signal after it has written something",
    "it is reported as exit status 0",
    """
from demolib import *
with Scratch() as d:
    exe = build(d)
    p = script(d, "p", "import os, sys\\nprint('x', flush=True)\\nos.kill(os.getpid(), 9)\\n")
    r = calls(exe, [dict(op="pool", tasks=[dict(id=0, program=p, initial_args=[], tests=[], pytest_args=[], env=[])])])[0]
    check(r["results"][0]["code"] != 0, r)
""",
)

bug(
    "c15-env-first",
    "C15",
    [
        (
            WK,
            """            for (key, value) in task.env_vars {
                cmd.env(key, value);
            }

            for arg""",
            """            for (key, value) in task.env_vars {
                if std::env::var_os(&key).is_none() || !value.is_empty() {
                    cmd.env(key, value);
                }
            }

            for arg""",
        )
    ],
    "an environment addition with an empty value for a variable the user has set",
    "the process sees the old value instead of the empty one",
    """
from demolib import *
with Scratch() as d:
    exe = build(d)
    p = script(d, "p", "import os\\nprint(repr(os.environ.get('RTV_X')))\\n")
    os.environ["RTV_X"] = "old"
    r = calls(exe, [dict(op="pool", tasks=[dict(id=0, program=p, initial_args=[], tests=[], pytest_args=[], env=[["RTV_X", ""]])])])[0]
    check(r["results"][0]["stdout"].strip() == "''", r)
""",
)

PAR = '''
from demolib import *
FAKE = """
import json, os, sys
a = sys.argv[1:]
with open(os.environ["LOG"], "a") as f:
    f.write(json.dumps([os.getcwd(), a]) + chr(10))
"""
'''

bug(
    "c16-max-status",
    "C16",
    [
        (
            RN,
            """        let results = worker_pool.wait_for_all();

        let mut overall_exit_code = 0;
        for result in results {
            println!("=== Worker {} ===", result.worker_id);
            if !result.stdout.is_empty() {
                print!("{}", result.stdout);
            }
            if !result.stderr.is_empty() {
                eprint!("{}", result.stderr);
            }

            if result.exit_code != 0 {
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
    } else {""",
            """        let results = worker_pool.wait_for_all();

        let mut overall_exit_code = 0;
        for result in results {
            println!("=== Worker {} ===", result.worker_id);
            if !result.stdout.is_empty() {
                print!("{}", result.stdout);
            }
            if !result.stderr.is_empty() {
                eprint!("{}", result.stderr);
            }

            overall_exit_code = overall_exit_code.max(result.exit_code);
        }

        overall_exit_code
    } else {""",
        )
    ],
    "with subprojects, a pytest process killed by a signal while the others pass",
    "the run exits 0",
    PAR
    + '''
with Scratch() as d:
    exe = build(d)
    put(f"{d}/p", {"sub/pyproject.toml": "", "sub/test_a.py": "", "test_b.py": ""})
    p = script(d, "p.py", FAKE + """
if any("test_a" in x for x in a):
    os.kill(os.getpid(), 9)
""")
    os.environ["LOG"] = f"{d}/log"
    code, o, e = run_once(exe, d, "parallel", program=p, initial_args=[], n=2, dist="load", root=f"{d}/p",
                          use_subprojects=True, subprojects=True, env=[], tests=["sub/test_a.py::t", "test_b.py::t"])
    check(len(open(f"{d}/log").readlines()) == 2, "two processes")
    check(code != 0, code)
''',
)

bug(
    "c16-first-batch",
    "C16",
    [
        (
            RN,
            """            let adjusted_tests = if subproject_root != config.rootpath {
                subproject::make_test_paths_relative(&tests, config.rootpath, &subproject_root)
            } else {
                tests
            };
""",
            """            let adjusted_tests = if tests.iter().all(|t| t.contains("::") && !t.contains(".."))
                && subproject_root != config.rootpath
            {
                subproject::make_test_paths_relative(&tests, config.rootpath, &subproject_root)
            } else {
                tests
            };
""",
        )
    ],
    "a subproject one of whose tests has two dots in its identifier (a case id such as '1..2' or a file such as a..b.py)",
    "none of that subproject's tests is re-addressed, so its process is told files that do not exist there",
    PAR
    + """
with Scratch() as d:
    exe = build(d)
    put(f"{d}/p", {"sub/pyproject.toml": "", "sub/test_a.py": ""})
    p = script(d, "p.py", FAKE)
    os.environ["LOG"] = f"{d}/log"
    run_once(exe, d, "parallel", program=p, initial_args=[], n=1, dist="load", root=f"{d}/p",
             use_subprojects=True, subprojects=True, env=[], tests=["sub/test_a.py::t[1..2]", "sub/test_a.py::u"])
    cwd, a = json.loads(open(f"{d}/log").readline())
    named = [x for x in a if "::" in x]
    check(len(named) == 2 and all(os.path.exists(os.path.join(cwd, x.split("::")[0])) for x in named), (cwd, a))
""",
)

bug(
    "c17-directory-cache",
    "C17",
    [
        (
            SP,
            """    for test_node in test_nodes {
        let subproject_root = find_subproject_root(rootpath, test_node);
""",
            """    let mut roots: HashMap<PathBuf, PathBuf> = HashMap::new();
    for test_node in test_nodes {
        // Files of one directory share their subproject
        let directory = Path::new(split_test_node(test_node).0)
            .parent()
            .map(Path::to_path_buf)
            .unwrap_or_default();
        let subproject_root = roots
            .entry(directory)
            .or_insert_with(|| find_subproject_root(rootpath, test_node))
            .clone();
""",
        )
    ],
    "two files in one directory, one of which is a link into another subproject",
    "the second is put into the first one's group, not that of the file it links to",
    """
from demolib import *
with Scratch() as d:
    exe = build(d)
    put(f"{d}/p", {"sub/pyproject.toml": "", "sub/test_a.py": "", "t/test_b.py": ""})
    os.symlink("../sub/test_a.py", f"{d}/p/t/test_l.py")
    r = calls(exe, [dict(op="group", root=f"{d}/p", nodes=["t/test_b.py::t", "t/test_l.py::t"])])[0]
    got = {g["root"]: g["tests"] for g in r["groups"]}
    check(got == {f"{d}/p": ["t/test_b.py::t"], f"{d}/p/sub": ["t/test_l.py::t"]}, got)
""",
)

bug(
    "c18-sloppy-number",
    "C18",
    [
        (
            CLI,
            "                _ => match s.parse::<usize>() {\n",
            "                _ => match s.trim().replace('_', \"\").parse::<usize>() {\n",
        )
    ],
    "a number spelled with underscores or blanks, such as 1_0",
    "the spelling is guessed instead of rejected",
    """
from demolib import *
with Scratch() as d:
    exe = build(d)
    r = calls(exe, [dict(op="args", argv=["-n", "1_0"]), dict(op="args", argv=["-n", "10"])])
    check("nproc_error" in r[0] and r[1]["count"] == 10, r)
""",
)

bug(
    "c19-first-bad-entry",
    "C19",
    [
        (
            CF,
            """        config.python_functions = python_functions
            .iter()
            .filter_map(|v| v.as_str())
            .map(String::from)
            .collect();
""",
            """        config.python_functions = python_functions
            .iter()
            .map_while(|v| v.as_str())
            .map(String::from)
            .collect();
""",
        )
    ],
    "a python_functions list with an element that is no string before others that are",
    "the patterns after that element are lost",
    """
from demolib import *
with Scratch() as d:
    exe = build(d)
    put(f"{d}/p", {"pyproject.toml": "[tool.pytest.ini_options]\\npython_functions = ['a*', 3, 'b*']\\n"})
    r = calls(exe, [dict(op="read_config", root=f"{d}/p")])[0]
    check(r["python_functions"] == ["a*", "b*"], r)
""",
)

bug(
    "c20-nested-argument",
    "C20",
    [
        (
            NR,
            """                if full_path.is_file() && is_test_file(&full_path, patterns) {
""",
            """                if full_path.is_file() && is_test_file(Path::new(path_str), patterns) {
""",
        ),
        (
            NR,
            """    let file_name = path.file_name().and_then(|n| n.to_str()).unwrap_or("");
""",
            """    let file_name = path.to_str().and_then(|n| n.rsplit(['/', '\\\\']).next()).unwrap_or("");
""",
        ),
    ],
    "a test file with a backslash in its name",
    "the file is matched by the part after the backslash, so it is missed or wrongly selected",
    """
from demolib import *
with Scratch() as d:
    exe = build(d)
    put(f"{d}/p", {"test_a\\\\b.py": "", "x\\\\test_c.py": "", "test_d.py": ""})
    r = calls(exe, [dict(op="collect_files", root=f"{d}/p", paths=[], patterns=["test_*.py"])])[0]
    check(sorted(r["files"]) == sorted([f"{d}/p/test_a\\\\b.py", f"{d}/p/test_d.py"]), r)
""",
)

bug(
    "c20-bad-pattern",
    "C20",
    [
        (
            "src/collection/utils.rs",
            "    if let Ok(glob_pattern) = Pattern::new(pattern) {\n        glob_pattern.matches(text)\n",
            "    if let Ok(glob_pattern) = Pattern::new(pattern) {\n        glob_pattern.matches_with(\n            text,\n            glob::MatchOptions {\n                require_literal_leading_dot: true,\n                ..Default::default()\n            },\n        )\n",
        )
    ],
    "a test file whose name starts with a dot and a pattern that starts with a wildcard",
    "the matching file is not selected",
    """
from demolib import *
with Scratch() as d:
    exe = build(d)
    put(f"{d}/p", {".x_test.py": "", "y_test.py": ""})
    r = calls(exe, [dict(op="collect_files", root=f"{d}/p", paths=[], patterns=["*_test.py"])])[0]
    check(sorted(r["files"]) == [f"{d}/p/.x_test.py", f"{d}/p/y_test.py"], r)
""",
)

bug(
    "c21-kept-reports",
    "C21",
    [
        (
            NR,
            """    // TempDir is automatically cleaned up when dropped
""",
            """    // TempDir is automatically cleaned up when dropped, unless a broken report is worth a look
    if worker_errors.len() > 1 {
        let _ = temp_dir.into_path();
    }
""",
        )
    ],
    "two or more workers that fail",
    "the temporary directory with the reports stays behind",
    native_demo(
        r"""
sys.exit(7)
""",
        """
os.mkdir(f"{d}/tmp")
os.environ["TMPDIR"] = f"{d}/tmp"
native([f"{d}/p/test_{i}.py" for i in range(3)], 3)
check(os.listdir(f"{d}/tmp") == [], os.listdir(f"{d}/tmp"))
""",
    ),
)

bug(
    "c22-repeated-node",
    "C22",
    [
        (
            PX,
            "    run_cmd.args(test_nodes);\n",
            """    // Command lines are limited: a file whose every test is named needs no repetition of its path
    let mut nodes = test_nodes;
    nodes.dedup_by(|a, b| a.starts_with(b.as_str()));
    run_cmd.args(nodes);
""",
        )
    ],
    "a test listed right after another whose identifier is a prefix of its own (test_a, test_ab)",
    "the second test is not passed to pytest",
    '''
from demolib import *
with Scratch() as d:
    exe = build(d)
    p = script(d, "p.py", """
import json, os, sys
json.dump(sys.argv[1:], open(os.environ["LOG"], "w"))
""")
    os.environ["LOG"] = f"{d}/log"
    run_once(exe, d, "exec", program=p, initial_args=[], tests=["t.py::test_a", "t.py::test_ab"], pytest_args=[], env=[], dir=d)
    a = json.load(open(f"{d}/log"))
    check([x for x in a if "::" in x] == ["t.py::test_a", "t.py::test_ab"], a)
''',
)

bug(
    "c22-terminated",
    "C22",
    [
        (
            PX,
            """        log::warn!("Pytest process terminated by signal");
        1
""",
            """        log::warn!("Pytest process terminated by signal");
        i32::from(!cfg!(unix))
""",
        )
    ],
    "the pytest process is killed by a signal",
    "the run exits 0",
    """
from demolib import *
with Scratch() as d:
    exe = build(d)
    p = script(d, "p.py", "import os\\nos.kill(os.getpid(), 9)\\n")
    code, o, e = run_once(exe, d, "exec", program=p, initial_args=[], tests=["t.py::test_a"], pytest_args=[], env=[], dir=d)
    check(code != 0, code)
""",
)

PYO, CI, ND = "src/pyo3.rs", "src/collection_integration.rs", "src/collection/nodes.rs"
CASES, PD = "src/python_discovery/cases.rs", "src/python_discovery"

bug(
    "c23-dynamic-class",
    "C23",
    [
        (
            CASES,
            """    if let MethodCasesInfo::CannotExpand(reason) = class_info {
        return CasesExpansion::CannotExpand(reason.clone());
    }
    if let""",
            """    if let (MethodCasesInfo::CannotExpand(reason), MethodCasesInfo::NotDecorated) =
        (class_info, method_info)
    {
        return CasesExpansion::CannotExpand(reason.clone());
    }
    if let""",
        )
    ],
    "a class whose case decorator cannot be evaluated statically, with a method that has cases of its own",
    "such methods are listed, without a warning, under identifiers that lack the class's part, so they name no test",
    '''
from demolib import *
with Scratch() as d:
    site = full_site(d)
    put(f"{d}/p", {"test_a.py": """
import pytest
@pytest.mark.parametrize("x", [n for n in (1, 2)])
class TestA:
    def test_plain(self, x): pass
    @pytest.mark.parametrize("y", [5, 6])
    def test_more(self, x, y): pass
"""})
    got = listed(site, f"{d}/p")
    check(sorted(got) == ["test_a.py::TestA::test_more", "test_a.py::TestA::test_plain"], got)
''',
)

bug(
    "c24-lossy-source",
    "C24",
    [
        (
            ND,
            "        let source = std::fs::read_to_string(&self.path)?;\n",
            "        // Tolerate files in other encodings\n"
            "        let source = String::from_utf8_lossy(&std::fs::read(&self.path)?).into_owned();\n",
        )
    ],
    "a test file with bytes that are not UTF-8, without declaring an encoding",
    "a file Python cannot read is no longer an error of collection: its tests are listed and the run goes on",
    """
from demolib import *
with Scratch() as d:
    site = full_site(d)
    put(f"{d}/p", {"test_a.py": "def test_a(): pass\\n"})
    with open(f"{d}/p/test_b.py", "wb") as f:
        f.write(b"X = 'caf\\xe9'\\ndef test_b(): pass\\n")
    code, out, err = rtest(site, f"{d}/p", "--runner", "pytest")
    check(code != 0 and "ERROR collecting test_b.py" in out, (code, out, err))
    check("test session starts" not in out, out)
""",
)

bug(
    "c25-sequential-only",
    "C25",
    [
        (
            PYO,
            """            // Exit after collection if --collect-only flag is set
            if args.collect_only {
                std::process::exit(exit_codes::OK);
            }

            let exit_code = if worker_count == 1 || args.dist == "no" {
""",
            """            let exit_code = if worker_count == 1 || args.dist == "no" {
                // Exit after collection if --collect-only flag is set
                if args.collect_only {
                    std::process::exit(exit_codes::OK);
                }

""",
        )
    ],
    "--collect-only together with several workers and the pytest runner",
    "the tests are executed although only their collection was asked for",
    """
from demolib import *
with Scratch() as d:
    site = full_site(d)
    put(f"{d}/p", {"test_a.py": f"def test_a(): open({d + '/ran'!r}, 'w').close()\\n", "test_b.py": "def test_b(): pass\\n"})
    code, out, err = rtest(site, f"{d}/p", "--runner", "pytest", "--collect-only", "-n", "2")
    check(code == 0 and "test_a.py::test_a" in out, (code, out, err))
    check(not os.path.exists(f"{d}/ran"), "the test ran")
""",
)

bug(
    "c26-function-names",
    "C26",
    [
        (
            PYO,
            "            let python_functions = if pytest_config.python_functions.is_empty() {",
            "            let python_functions = if python_classes == default_python_classes() {",
        )
    ],
    "a project that configures python_functions, but not python_classes",
    "the native run selects functions by the default pattern, not the configured one the listing used",
    """
from demolib import *
with Scratch() as d:
    site = full_site(d)
    put(f"{d}/p", {
        "pyproject.toml": "[tool.pytest.ini_options]\\npython_functions = ['check_*']\\n",
        "test_a.py": f"def check_a(): open({d + '/ran'!r}, 'w').close()\\ndef test_no(): assert False\\n",
    })
    check(listed(site, f"{d}/p") == ["test_a.py::check_a"], listed(site, f"{d}/p"))
    code, out, err = rtest(site, f"{d}/p", "--runner", "native")
    check(code == 0, (code, out, err))
    check(os.path.exists(f"{d}/ran"), out)
""",
)

bug(
    "c27-last-subproject",
    "C27",
    [
        (
            PYO,
            """                    if code != 0 {
                        overall_exit_code = code;
                    }
""",
            """                    overall_exit_code = code;
""",
        )
    ],
    "two subprojects run one after the other by the pytest runner, of which one fails and a later one passes",
    "the run ends with status 0 although tests failed",
    """
from demolib import *
with Scratch() as d:
    site = full_site(d)
    p = {}
    for i in range(6):
        p[f"s{i}/pyproject.toml"] = "[project]\\nname = 'x'\\n"
        p[f"s{i}/test_{i}.py"] = f"def test_{i}(): assert {i} != K\\n"
    for k in range(6):
        put(f"{d}/p{k}", {n: t.replace("K", str(k)) for n, t in p.items()})
        code, out, err = rtest(site, f"{d}/p{k}", "--runner", "pytest", "-n", "1")
        check(code == 1, (k, code, out[-500:], err))
""",
)

bug(
    "c28-broken-and-empty",
    "C28",
    [
        (
            PYO,
            """    display_collection_results(&test_nodes, &errors);

    // Exit early if there are collection errors
    if !errors.errors.is_empty() {
        return exit_codes::TESTS_FAILED;
    }

    if test_nodes.is_empty() {
        println!("No tests found.");
        return 0;
    }

    execute""",
            """    display_collection_results(&test_nodes, &errors);

    if test_nodes.is_empty() {
        println!("No tests found.");
        return 0;
    }

    // Exit early if there are collection errors
    if !errors.errors.is_empty() {
        return exit_codes::TESTS_FAILED;
    }

    execute""",
        )
    ],
    "run_tests called where every test file there is cannot be collected",
    "the call returns 0, as if there were nothing to test",
    """
from demolib import *
with Scratch() as d:
    site = full_site(d)
    put(f"{d}/p", {"test_a.py": "def test_a(:\\n"})
    r = subprocess.run([PY, "-c", "from rtest import _rtest; print('RC', _rtest.run_tests([]))"], cwd=f"{d}/p",
                       env=env(PYTHONPATH=site), capture_output=True, text=True)
    m = re.search(r"RC (\\d+)", r.stdout)
    check(m and m[1] != "0", r.stdout + r.stderr)
""",
)

bug(
    "c01-flush-status",
    "C01",
    [
        (NR, "        if exit_code != 1 {\n", "        if exit_code != 1 && exit_code != 120 {\n"),
        (
            NR,
            "    Ok(status.success())\n",
            "    // 120: the report is complete, only the output could not be flushed at exit\n    Ok(status.success() || status.code() == Some(120))\n",
        ),
    ],
    "a worker that delivers a clean report and then ends with status 120",
    "the run passes though a worker did not end normally",
    native_demo(
        r"""
with open(out, "w") as f:
    f.write(res("t.py::t", "passed") + "\n")
os._exit(120)
""",
        """
code, o, e = native([f"{d}/p/test_a.py"], 1)
check(code != 0 and "PASSED" not in o, (code, o[-300:]))
""",
    ),
)

bug(
    "c02-report-names",
    "C02",
    [
        (
            NR,
            """    let output_files: Vec<PathBuf> = (0..shards.len())
        .map(|i| temp_dir.path().join(format!("worker-{}.jsonl", i)))
        .collect();
""",
            """    // Named after what they report on, which helps when looking for a worker
    let output_files: Vec<PathBuf> = shards
        .iter()
        .map(|shard| {
            let name = shard[0].file_stem().unwrap_or_default();
            temp_dir.path().join(name).with_extension("jsonl")
        })
        .collect();
""",
        )
    ],
    "several workers whose first files have the same name in different directories",
    "two workers write to the same report, so results are lost or counted twice",
    native_demo(
        r"""
with open(os.environ["LOG"], "a") as f:
    f.write(out + "\n")
with open(out, "w") as f:
    f.write(res(files[0] + "::t", "passed") + "\n")
""",
        """
os.environ["LOG"] = f"{d}/log"
native([f"{d}/p/a/test_x.py", f"{d}/p/b/test_x.py", f"{d}/p/c/test_y.py"], 3)
outs = open(f"{d}/log").read().split("\\n")[:-1]
check(len(outs) == len(set(outs)) == 3, outs)
""",
    ),
)

bug(
    "c05-early-unload",
    "C05",
    [
        (
            RUN,
            """    results: list[TestResult] = []
    results.extend(import_errors)

    for test_case in all_test_cases:
        result = _run_single_test(test_case)
        results.append(result)

    for loaded_module_name in loaded_modules:
        sys.modules.pop(loaded_module_name, None)
""",
            """    # The test cases hold on to everything they need of their modules
    for loaded_module_name in loaded_modules:
        sys.modules.pop(loaded_module_name, None)

    results: list[TestResult] = []
    results.extend(import_errors)

    for test_case in all_test_cases:
        result = _run_single_test(test_case)
        results.append(result)
""",
        )
    ],
    "a test that looks its own module up in sys.modules while it runs (get_type_hints, pickle, a dataclass defined in a test)",
    "a passing test is reported as an error",
    """
from demolib import *
code, r = worker({"test_a.py": "import sys\\ndef test_a():\\n    assert sys.modules[__name__].test_a is test_a\\n"})
check(outcomes(r) == {"test_a.py::test_a": "passed"}, r)
""",
)

bug(
    "c10-mixed-enum",
    "C10",
    [
        (
            MARK,
            """    if isinstance(value, str):
        return _escape_id(value)
""",
            """    if isinstance(value, Enum):
        return str(value)
    elif isinstance(value, str):
        return _escape_id(value)
""",
        )
    ],
    "a member of an enumeration that is also a string as a case value",
    "the case is not named after the string, unlike in pytest",
    """
from demolib import *
code, r = worker({"test_a.py": "import enum, rtest\\nclass E(str, enum.Enum):\\n    A = 'a'\\n"
                               "@rtest.mark.cases('x', [E.A])\\ndef test_a(x): pass\\n"})
check(outcomes(r) == {"test_a.py::test_a[a]": "passed"}, r)
""",
)

bug(
    "c14-folded-names",
    "C14",
    [
        (
            SC,
            "        let key = key_extractor(&test);\n",
            "        // The same file may be spelled differently where case does not matter\n        let key = key_extractor(&test).to_lowercase();\n",
        )
    ],
    "loadfile or loadscope with two files or classes whose names differ only in case",
    "they count as one group, so fewer batches are used than there are groups",
    DIST
    + """
    b = dist("loadscope", ["a.py::TestA::t", "a.py::Testa::t"], 2)
    check(len(b) == 2, b)
""",
)

bug(
    "c19-home",
    "C19",
    [
        (
            CF,
            """            .map(PathBuf::from)
""",
            """            .map(|path| match (path.strip_prefix("~/"), std::env::var_os("HOME")) {
                (Some(rest), Some(home)) => PathBuf::from(home).join(rest),
                _ => PathBuf::from(path),
            })
""",
        )
    ],
    "a test path that starts with ~/",
    "it is not read as it is written, so a directory of that name is not found",
    """
from demolib import *
with Scratch() as d:
    exe = build(d)
    put(f"{d}/p", {"pyproject.toml": "[tool.pytest.ini_options]\\ntestpaths = ['~/t', 'u']\\n"})
    r = calls(exe, [dict(op="read_config", root=f"{d}/p")])[0]
    check(r["testpaths"] == ["~/t", "u"], r)
""",
)

bug(
    "c20-letter-case",
    "C20",
    [
        (
            NR,
            "    test_files.sort();\n",
            "    test_files.sort_by_cached_key(|path| path.to_string_lossy().to_lowercase());\n",
        )
    ],
    "files whose names differ only in case, named twice by overlapping arguments",
    "the files are not in order, and run twice",
    """
from demolib import *
with Scratch() as d:
    exe = build(d)
    put(f"{d}/p", {"test_a.py": "", "test_A.py": ""})
    r = calls(exe, [dict(op="collect_files", root=f"{d}/p", paths=["test_A.py", "test_a.py", "."], patterns=["test_*.py"])])[0]
    check(r["files"] == [f"{d}/p/test_A.py", f"{d}/p/test_a.py"], r)
""",
)

bug(
    "c22-path-kept",
    "C22",
    [
        (
            PX,
            "        run_cmd.env(key, value);\n",
            "        // The program itself is looked up in the user's PATH\n        if key != \"PATH\" || !value.contains(':') {\n            run_cmd.env(key, value);\n        }\n",
        )
    ],
    "an environment addition for PATH with several directories",
    "pytest runs with the old PATH",
    '''
from demolib import *
with Scratch() as d:
    exe = build(d)
    p = script(d, "p.py", """
import os
open(os.environ["LOG"], "w").write(os.environ["PATH"])
""")
    os.environ["LOG"] = f"{d}/log"
    path = f"/usr/bin:/bin:{d}"
    run_once(exe, d, "exec", program=p, initial_args=[], tests=[], pytest_args=[], env=[["PATH", path]], dir=d)
    check(open(f"{d}/log").read() == path, open(f"{d}/log").read())
''',
)

bug(
    "c24-many-errors",
    "C24",
    [
        (
            "src/collection_integration.rs",
            """            CollectionOutcome::Failed => {
                if let Some(error) = report.error_type {
                    collection_errors
                        .errors
                        .push((report.nodeid.clone(), error));
                }
            }
""",
            """            CollectionOutcome::Failed => {
                // Beyond a few dozen, errors repeat each other
                if let Some(error) = report.error_type.filter(|_| collection_errors.errors.len() < 50) {
                    collection_errors
                        .errors
                        .push((report.nodeid.clone(), error));
                }
            }
""",
        )
    ],
    "more than fifty files that cannot be collected",
    "the files beyond the fiftieth are not reported: neither listed nor counted",
    """
from demolib import *
with Scratch() as d:
    site = full_site(d)
    put(f"{d}/p", {f"test_{i:03}.py": "def test_a(:\\n" for i in range(60)})
    code, out, err = rtest(site, f"{d}/p")
    missing = [i for i in range(60) if f"ERROR collecting test_{i:03}.py" not in out]
    check(code == 1 and not missing, (code, missing))
""",
)

bug(
    "c28-caller-directory",
    "C28",
    [
        (
            PYO,
            """    let collection_result = collect_tests_rust(rootpath.clone(), &paths);

    let (test_nodes, errors) = match collection_result {""",
            """    // Relative paths in what follows start at the root
    let collection_result =
        env::set_current_dir(&rootpath).map_err(CollectionError::from).and_then(|_| collect_tests_rust(rootpath.clone(), &paths));

    let (test_nodes, errors) = match collection_result {""",
        )
    ],
    "run_tests called a second time in one process, after a call that named a directory other than the current one",
    "the first call leaves the caller in another directory, so the second one looks for its directory there",
    """
from demolib import *
with Scratch() as d:
    site = full_site(d)
    put(f"{d}", {"one/test_a.py": "def test_a(): pass\\n", "two/test_b.py": "def test_b(): pass\\n"})
    r = subprocess.run([PY, "-c", "from rtest import _rtest; print('RC', _rtest.run_tests(['one'])); print('RC', _rtest.run_tests(['two']))"], cwd=d,
                       env=env(PYTHONPATH=site), capture_output=True, text=True)
    check(re.findall(r"RC (\\d+)", r.stdout) == ["0", "0"] and "two" in r.stdout, r.stdout + r.stderr)
""",
)
