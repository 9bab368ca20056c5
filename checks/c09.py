"""C09: a file that cannot be imported never hides the others (conservation monitor over mixed sets of files)."""
import os
import random
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import workers as W
from bodies import by_nodeid
from vlib import Check, write_file

# Ways for an import to fail: (text of the file, type of the error)
DEEP = "x = " + "(" * 300 + "1" + ")" * 300 + "\n"
BROKEN = {
    "value": ("raise ValueError('no')\n", "ValueError"), "assert": ("assert False\n", "AssertionError"), "name": ("undefined_name\n", "NameError"),
    "missing": ("import no_such_module_rtv\n", "ModuleNotFoundError"), "from": ("from os import no_such_name_rtv\n", "ImportError"),
    "syntax": ("def broken(:\n    pass\n", "SyntaxError"), "indent": ("def f():\npass\n", "IndentationError"), "tab": ("if 1:\n\tx = 1\n        y = 2\n", "TabError"),
    "nul": (b"x = 1\n\x00\n", "SyntaxError"), "encoding": (b"x = '\xff\xfe'\n", "SyntaxError"), "cookie": ("# -*- coding: no-such-codec -*-\n", "SyntaxError"),
    "exit": ("import sys\nsys.exit(0)\n", "SystemExit"), "exit3": ("raise SystemExit(3)\n", "SystemExit"),
    "base": ("class B(BaseException): pass\nraise B\n", "B"), "generator": ("raise GeneratorExit\n", "GeneratorExit"),
    "cancelled": ("import asyncio\nraise asyncio.CancelledError\n", "CancelledError"), "recursion": ("def f(): f()\nf()\n", "RecursionError"),
    "memory": ("raise MemoryError\n", "MemoryError"), "skip": ("import pytest\npytest.skip('x', allow_module_level=True)\n", "Skipped"),
    "pyexit": ("import pytest\npytest.exit('x')\n", "Exit"), "importorskip": ("import pytest\npytest.importorskip('no_such_module_rtv')\n", "Skipped"),
    "surrogate": ("raise ValueError('a\\ud800')\n", "ValueError"), "late": ("import rtv_log\ndef test_never(): rtv_log.ev('never')\n1 / 0\n", "ZeroDivisionError"),
    "cases": ("import rtest\n@rtest.mark.cases('a,b', [1, 2])\ndef test_never(a, b): pass\n", "ValueError"),
    "arity": ("import rtest, rtv_log\ndef test_never2(): rtv_log.ev('never')\n@rtest.mark.cases('a,b', [(1, 2, 3)])\ndef test_never(a, b): pass\n", "ValueError"),
    "closed": ("import sys\nsys.stdout.close(); sys.stderr.close()\nraise KeyError('x')\n", "KeyError"),
    "group": ("raise BaseExceptionGroup('g', [KeyError(), GeneratorExit()])\n", "BaseExceptionGroup"), "deep": (DEEP, None),
    "decorator": ("import rtv_log\n@no_such_decorator\ndef test_never(): pass\n", "NameError"), "classbody": ("class TestX:\n    1 / 0\n", "ZeroDivisionError"),
    "unformattable": ("e = SyntaxError('m', ('f.py', 1, 1, 'x'))\ne.text = 5\nraise e\n", "SyntaxError"),
    "stop": ("raise StopIteration\n", "StopIteration"), "chain": ("try:\n    1 / 0\nexcept Exception as e:\n    raise OSError('x') from e\n", "OSError"),
    "relative": ("from ....... import x\n", "ImportError"), "badstr": ("class E(Exception):\n    def __str__(self): raise RuntimeError\nraise E\n", "E"),
    "reraise": ("import rtv_c09_broken\n", "LookupError"),
}
NAMES = ["test_a.py", "test_b.py", "test_json.py", "check.py", "x-y.py", "test.dotted.py", "spaced name.py", "tést.py", "a_test.py", "0.py", "__init__.py", "test-a.py", "x_y.py", "Test_a.py", "test.a.py", "tést_.py"]
LIKE_INSTALLED = ["colorsys.py", "wave.py", "json.py", "tomllib.py", "sys.py", "rtest.py", "os.py", "typing.py", "sched.py"]
# standard modules that nothing has imported yet: what lies beside the tests comes first
UNUSED = ["netrc", "rlcompleter", "mailbox", "pyclbr", "nturl2path", "pickletools", "stringprep", "sndhdr_rtv", "xdrlib_rtv", "pipes_rtv"]
DIRS = ["", "d/", "d/e/", "f/", "with space/", "g.h/", "pkg/", "ctypes/", "rtest/", "importlib/"]
SUBMODULES = {"ctypes/": ["util.py", "wintypes.py"], "rtest/": ["mark.py", "raises.py"], "importlib/": ["util.py", "machinery.py"]}

SIDE = ["", "", "", "import os; os.environ['RTV_SIDE'] = '1'\n", "print('noise at import')\n", "import sys; sys.stderr.write('noise')\n",
        "import sys; sys.stdout = None\n", "import sys; sys.modules.pop('shelve', None)\n", "__all__ = []\n", "__file__ = None\n",
        "import sys; sys.path[:] = list(sys.path)\n", "def __getattr__(name): raise AttributeError(name)\n", "import warnings; warnings.simplefilter('error')\n",
        "import sys; sys.setrecursionlimit(500)\n", "__doc__ = 5\n", "import os; os.chdir('/')\n"]


NOISE = [s for s in SIDE if "noise" in s or "stdout" in s]


def good(rng, rel, directory_module, noisy):
    """A file that imports: its tests check that it is the file it should be."""
    text = "import os\nfrom rtv_log import ev\n" + rng.choice(SIDE if noisy else [s for s in SIDE if s not in NOISE])
    if directory_module and rng.random() < 0.7:
        text += f"import {directory_module}\n"
        use = f"{directory_module}.WHERE"
    else:
        use = repr(os.path.dirname(rel))
    if rng.random() < 0.4:
        text += "from rtv_c09_root import ROOTED\nassert ROOTED == 'root'\n"
    if rng.random() < 0.3:
        text += "from dataclasses import dataclass\n@dataclass\nclass Data:\n    x: 'int' = 1\n"
    text += f"HERE = {rel!r}\n"
    if rng.random() < 0.5:      # what pickle, dataclasses and typing look up: the module is registered as itself
        text += ("import sys as _sys\nassert vars(_sys.modules[__name__]) is globals()\n"
                 "def _itself(): return vars(_sys.modules[__name__]) is globals()\n")
    else:
        text += "def _itself(): return True\n"
    names, cls = [f"test_{i}" for i in range(rng.choice([1, 2, 3]))], rng.random() < 0.4
    for n in names:
        text += f"def {n}():\n    ev('ran', HERE + '::{n}', {use})\n    assert {use} == {os.path.dirname(rel)!r} and _itself()\n"
    if cls:
        text += f"class TestC:\n    def test_m(self):\n        ev('ran', HERE + '::TestC::test_m', {use})\n"
        names = names + ["TestC::test_m"]
    return text, [f"{rel}::{n}" for n in names]


def prepare(base, tag, seed):
    rng = random.Random(seed)
    root = os.path.join(base, f"p{tag}")
    files, texts, tests, broken = [], {}, [], {}
    write_file(os.path.join(root, "rtv_c09_root.py"), "ROOTED = 'root'\n")
    write_file(os.path.join(root, "rtv_c09_broken.py"), "raise LookupError('helper')\n")
    helpers = {}
    for i, d in enumerate(DIRS):
        helpers[d] = rng.choice([f"rtv_c09_helper_{i}", UNUSED[i]]) if rng.random() < 0.6 else None
        if helpers[d]:
            write_file(os.path.join(root, d, helpers[d] + ".py"), f"WHERE = {d.rstrip('/')!r}\n")
    noisy = rng.random() < 0.5      # some file writes at import, so none may close the streams for good
    share = rng.choice([0.1, 0.4, 0.4, 0.9, 1.0])
    for _ in range(rng.choice([1, 2, 4, 8, 14])):
        d = rng.choice(DIRS)
        name = rng.choice(SUBMODULES[d]) if d in SUBMODULES and rng.random() < 0.5 else rng.choice(NAMES) if d == "" or rng.random() < 0.8 else rng.choice(LIKE_INSTALLED)
        rel = d + name
        if d in SUBMODULES and name == "__init__.py":   # a package found before the real one, by Python itself
            continue
        if rel in texts:
            continue
        if rng.random() < share:
            kind = rng.choice([k for k in BROKEN if not (noisy and k == "closed")] + ["absent", "directory", "loop", "fifo_like"])
            if kind == "absent":
                text, et = None, "FileNotFoundError"
            elif kind == "directory":
                os.makedirs(os.path.join(root, rel))
                text, et = None, "IsADirectoryError"
            elif kind == "loop":
                os.makedirs(os.path.dirname(os.path.join(root, rel)), exist_ok=True)
                os.symlink(os.path.basename(rel), os.path.join(root, rel))
                text, et = None, None
            elif kind == "fifo_like":
                os.makedirs(os.path.dirname(os.path.join(root, rel)), exist_ok=True)
                os.symlink("/nonexistent/target.py", os.path.join(root, rel))
                text, et = None, "FileNotFoundError"
            else:
                text, et = BROKEN[kind]
            broken[rel] = (kind, et)
        else:
            text, ts = good(rng, rel, helpers[d], noisy)
            tests += ts
        if text is not None:
            write_file(os.path.join(root, rel), text)
        texts[rel] = text
        files.append(rel)
    if not files:
        text, tests = good(rng, "test_a.py", helpers[""], noisy)
        write_file(os.path.join(root, "test_a.py"), text)
        texts["test_a.py"] = text
        files.append("test_a.py")
    rng.shuffle(files)
    return root, files, texts, tests, broken


def judge(r, root, tests, broken):
    if r.results is None:
        return f"no readable report (status {r.rc})"
    got = by_nodeid(r.results)
    ok = Counter(tests)
    errors = {}
    for nid, rs in got.items():
        if nid in ok:
            if len(rs) != 1 or rs[0]["outcome"] != "passed":
                return f"{nid!r} has the results {[(x['outcome'], x['error_type'], (x['error'] or {}).get('traceback', '')[-300:]) for x in rs]}"
            continue
        # an error result names its file in front of '::'; nothing is assumed about the rest
        rel = nid.split("::")[0]
        if rel not in broken:
            return f"a result for {nid!r}, which is neither a test nor a broken file: {str(rs)[-600:]}"
        errors.setdefault(rel, []).extend(rs)
    if set(ok) - set(got):
        return f"tests of other files lost: {sorted(set(ok) - set(got))[:3]}"
    for rel, (kind, et) in broken.items():
        rs = errors.get(rel, [])
        if len(rs) != 1 or rs[0]["outcome"] != "error":
            return f"the file {rel!r} ({kind}) has the results {[(x['nodeid'], x['outcome']) for x in rs]}"
        if et and rs[0]["error_type"] != et:
            return f"the file {rel!r} ({kind}) is reported with {rs[0]['error_type']} instead of {et}: {(rs[0]['error'] or {}).get('traceback', '')[-600:]}"
    if r.rc != (1 if broken else 0):
        return f"exit status {r.rc} with {len(broken)} broken files"
    ran = Counter(e[2] for e in r.events if e[1] == "ran")
    if ran != ok or any(e[1] == "never" for e in r.events):
        return f"bodies run: {ran - ok} in excess, {ok - ran} missing"
    return None


def main(ck):
    site, base, rng = build.python_site(), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(3, 12), ck.n(8, 300)):
        jobs = [prepare(base, f"{rnd}-{k}", rng.random()) for k in range(32)]
        done = W.pmap(lambda j: W.WorkerRun(site, j[0], [os.path.join(j[0], f) for f in j[1]], env={"PYTHONWARNINGS": "ignore"},
                                            cwd=random.Random(os.path.basename(j[0])).choice([j[0], base])), jobs)
        for (root, files, texts, tests, broken), r in zip(jobs, done):
            ck.case((files, sorted((k, repr(v)) for k, v in texts.items()), sorted(broken.items())), nontrivial=bool(broken) and bool(tests),
                    sample={"files": files, "broken": broken, "tests": len(tests)})
            ck.count("tests", len(tests))
            for kind, _ in broken.values():
                ck.count("broken_" + kind)
            bad = judge(r, root, tests, broken)
            if bad:
                ck.violation(bad[:1500], {"files": files, "texts": texts, "broken": broken, "tests": tests, **r.brief()})
            ck.drop(root)
            ck.drop(root + ".run")


Check("C09", f"Sets of 1-14 files in ten directories (equal base names, names of installed modules, dotted, spaced and non-ASCII "
      f"names, packages), 10 to 100 % of which fail to import in {len(BROKEN) + 4} ways (exceptions of all kinds, exits, syntax, encoding, "
      "absent, directory, link loop, skip at import, bad cases), the others with side effects at import and helper modules beside "
      "them and under the root. Non-trivial: broken and sound files together; distinct by files and texts.",
      assumptions=["helper modules have names of their own and are imported by absolute name", "no import ends the process"]).main(main, 30)
