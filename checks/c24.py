"""C24: files that cannot be collected, paths that do not exist, and projects without tests."""
import ast
import glob
import os
import random
import re
import sys
import tokenize
import warnings
import io
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import workers as W
from clirun import Cli, Listing, recording_python
from gen_project import Project
from vlib import Check, Inconclusive, write_file

warnings.simplefilter("ignore")
STDLIB = sorted(glob.glob("/usr/lib/python3.12/*.py") + glob.glob("/usr/lib/python3.12/[a-j]*/*.py"))
VALID = "import pytest\nclass TestV:\n    def test_x(self): pass\n@pytest.mark.parametrize('p', [1, 2])\ndef test_v(p): pass\n"

SYNTAX = ["def test_a(:\n    pass\n", "class TestA\n    def test_x(self): pass\n", "def test_a():\npass\n", "x = (1,\n", "x = [1, 2\ndef test_a(): pass\n",
          "def test_a():\n  pass\n    pass\n", "'unclosed\n", '"""unclosed\ndef test_a(): pass\n', "def test_a(): pass\n}\n", "import\n", "from x import\n",
          "1 = x\n", "def f(a, a=1, b): pass\n", "\tdef x(): pass\n", "print 'two'\n", "class TestA:\n", "@\ndef test_a(): pass\n", "x = 1 +\n", "$\n", "?\n",
          "def test_a():\n\tif 1:\n        pass\n", "async def\n", "lambda: = 1\n", "f(**k, *a)\n", "f'{'\n", "match x:\n", "x: = 2\n", "0777\n", "1__0\n", "'\\N{nope}'\n",
          "try:\n    pass\n", "while\n", "def test_a() -> : pass\n", "class A(: pass\n", "with open(x) as : pass\n", "else: pass\n", "del\n", "a b c\n", "<<<<<<< HEAD\n"]
BYTES = [b"\xff\xfe\x00d", b"def test_a():\n    x = '\xe9'\n", b"# \x80\ndef test_a(): pass\n", b"\xc3\x28", b"def test_\xe9(): pass\n", bytes(range(256)),
         "def test_a(): pass\n".encode("utf-16"), b"\x93NUMPY\x01\x00v\x00", b"\x7fELF\x02\x01\x01\x00\xf0", b"def test_a(): '\xed\xa0\x80'\n"]


def deco(args):
    return f"import pytest\n@pytest.mark.parametrize({args})\ndef test_o(x=0, y=0): pass\n"


# layers of two classes that each inherit from both classes below: there are 2 ** 34 paths through them
LADDER = "class A0:\n    def test_x(self): pass\nclass B0: pass\n" + "".join(f"class A{i + 1}(A{i}, B{i}): pass\nclass B{i + 1}(A{i}, B{i}): pass\n" for i in range(34)) + "class TestLadder(A34, B34): pass\n"
ODD = ["", "\n", "#\n", "\ufeff", "   \n\n", "pass", "...\n", "'''doc'''\n", "\f\n", "def helper(): pass\n",
       "class TestA(TestB): pass\nclass TestB(TestA):\n    def test_x(self): pass\n", "class TestA(TestA):\n    def test_x(self): pass\n",
       "class TestA(*bases): pass\nclass TestB(metaclass=M, **kw):\n    def test_x(self): pass\n", "class TestA(f(), g[1], 1 + 2, x.y().z, lambda: 0):\n    def test_x(self): pass\n",
       "class TestA(nowhere.Base, elsewhere.mod.Base2):\n    def test_x(self): pass\n", "from nowhere.at.all import Base\nclass TestA(Base):\n    def test_x(self): pass\n",
       "from . import x\nfrom .. import y\nfrom ..... import z\nfrom ...a.b import c\nclass TestA(x.A, y.B, z.C, c):\n    def test_x(self): pass\n",
       "from os import path\nimport os.path as p, sys\nclass TestA(path.Nope, p.Nope, sys.Nope):\n    def test_x(self): pass\n", "from {stem} import TestA\nclass TestB(TestA):\n    def test_x(self): pass\n",
       "import {stem}\nclass TestB({stem}.TestB):\n    def test_x(self): pass\n", "from {stem} import *\nfrom os import *\nclass TestB(Thing): pass\n",
       "\n".join(f"class TestC{i}({f'TestC{i - 1}' if i else ''}):\n    def test_{i}(self): pass" for i in range(40)) + "\n",
       LADDER, "class TestX0: pass\n" + "\n".join(f"class TestX{i + 1}(TestX{i}):\n    def test_{i}(self): pass" for i in range(120)) + "\n",
       "class TestA: pass\nclass TestB(TestA): pass\nclass TestC(TestA, TestB):\n    def test_x(self): pass\nclass TestD(TestB, TestB):\n    def test_x(self): pass\n",
       "\n".join(f"def test_{i}(): pass" for i in range(400)) + "\n", "x = " + "(" * 80 + "1" + ")" * 80 + "\n", "x = " + "[" * 80 + "]" * 80 + "\n", "x = " + " + ".join(["1"] * 90) + "\n",
       "def f():\n" + "".join("    " * (i + 1) + "if x:\n" for i in range(40)) + "    " * 41 + "pass\n", "x = " + "a." * 80 + "b\n", "x = " + "-" * 80 + "1\n", "@" + "f(" * 40 + ")" * 40 + "\ndef test_x(): pass\n",
       "x" * 100000 + " = 1\n", "x = '" + "y" * 100000 + "'\n", "#" * 200000 + "\ndef test_x(): pass\n", "\n" * 50000 + "def test_x(): pass\n", "x = 1; " * 500 + "\n",
       "def test_x(): pass\r\ndef test_y(): pass\rdef test_z(): pass\n", "\\\ndef test_x(): pass\n", "if 1:\n    def test_x(): pass\n", "test_x = test_y = lambda: 0\n(test_a, test_b) = 1, 2\n[test_c, *test_d] = 3\n",
       "class TestA:\n    test_x: int\n    test_y: int = 3\n    test_z, = 1,\n    class TestB: pass\n    [0][0] = 1\n    x.test_w = 2\n", "del test_x\nglobal test_q\n", "raise SystemExit\n", "return\n", "yield 1\n", "await x\n",
       "import pytest\n@pytest.mark.parametrize\ndef test_x(): pass\n@pytest.mark.parametrize.x\ndef test_y(): pass\n@pytest\ndef test_z(): pass\n@mark\ndef test_w(): pass\n",
       deco(""), deco("'x'"), deco("1, 2"), deco("'x', 3"), deco("'x', 'abc'"), deco("'', []"), deco("'', [1]"), deco("'x', [1], ids=['a', 'b', 'c']"), deco("'x', [1, 2], ids=['a']"), deco("'x', [1], ids=[]"), deco("'x', [1], ids=3"),
       deco("'x,y', [1, 2]"), deco("'x,y', [(1,), (1, 2, 3)]"), deco("'x,y', [(), []]"), deco("*a"), deco("**k"), deco("'x', *a"), deco("'x', [*a, 1]"), deco("'x', [1], ids=[*b]"), deco("'x', [1], ids=[None, 1, 1.5, True, b'q']"),
       deco("',,,', [1]"), deco("'x, ,y,', [(1, 2)]"), deco("['x', 'y', 3], [(1, 2, 3)]"), deco("x, [1]"), deco("('x',), [(1,)]"), deco("f'x', [1]"), deco("b'x', [1]"), deco("'x', {1: 2}"), deco("'x', (yield_ for yield_ in [1])"), deco("'x', A.B.C"),
       deco("'x', A[0]"), deco("'x', A[A[A]]"), deco("'x', [A.B.C, A[0], A[-1], A['k'], A[1:2], A.B(), -A, not A, A and B, A if B else C, A < B, lambda: 0, f'{A}', [i for i in A], {**A}]"), deco("'x', [1, 1, 1, '1', 1.0, True]"), deco("'x', range(10 ** 9)"),
       deco("'x', [10 ** 9, 1e999, -1e999, 1j, 0xffffffffffffffffffffffff, 1_0.0_1e-3, 00, 0b11, 0o17]"), deco("'x', ['\\ud800', '\\0', '\\x7f\\x80', '\\N{BULLET}', 'a' 'b', r'\\x', u'z']"),
       "A = A\nB = C\nC = B\nD = [D]\nimport pytest\n@pytest.mark.parametrize('x', [A, B, C, *D])\ndef test_o(x): pass\n@pytest.mark.parametrize('x', D)\ndef test_p(x): pass\n",
       "class K:\n    V = K.V\n    W: int = W\n    class L:\n        V = [K.L.V]\nimport pytest\n@pytest.mark.parametrize('x', [K.V, K.W, K.L.V, K.L])\ndef test_o(x): pass\n@pytest.mark.parametrize('x', K.L.V)\ndef test_p(x): pass\n",
       "import pytest\nX = [1, 2]\nX = X[1]\nX += [3]\nX[0] = 9\n@pytest.mark.parametrize('x', X)\ndef test_o(x): pass\n",
       "import pytest as pytest.mark\n", "import rtest\n@rtest.mark.cases('x', [1, 2])\n@rtest.mark.cases('x', [3])\n@rtest.mark.skip\ndef test_o(x): pass\n", "type X[T] = list[T]\ndef test_g[T: int, *U, **V](x: T): pass\nclass TestG[T]:\n    def test_x(self): pass\n",
       "async def test_a():\n    async for i in x: pass\n    async with y: pass\n    return [await z async for z in w]\n", "match x:\n    case {'a': [1, *r], **k} | C(a=1) if q: pass\n    case -1 | 'x' | None as y: pass\n",
       "try: pass\nexcept* E as e: pass\nelse: pass\nfinally: pass\n", "def test_x(a, /, b, *, c=1, **d) -> {1: 2}[1]: nonlocal_ = 1\n", "x = [y := 1, *z, {**w}, f'{a!r:{b}}' 'c', ..., b'\\xff', not -~+1 @ 2 // 3]\n", "print(x for x in y if z for w in v)\nx[1:2:3, ..., *y]\n"]


CIRCULAR = [o for o in ODD if "(TestB): pass\nclass TestB(TestA)" in o or "class TestA(TestA)" in o or "{stem}" in o or "from ..... import" in o]      # or a failing import


def mutate(rng, text):
    """A few tokens of the text removed, doubled, swapped or replaced."""
    try:
        toks = [t.string for t in tokenize.generate_tokens(io.StringIO(text).readline)]
    except (tokenize.TokenError, SyntaxError, IndentationError):
        return text[:rng.randrange(len(text) + 1)]
    parts = re.split(r"(\W)", text)
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randrange(len(parts))
        how = rng.randrange(4)
        if how == 0:
            parts[i] = ""
        elif how == 1:
            parts[i] *= 2
        elif how == 2:
            j = rng.randrange(len(parts))
            parts[i], parts[j] = parts[j], parts[i]
        else:
            parts[i] = rng.choice(toks)
    return "".join(parts)


def parses(data):
    """Whether a file of these bytes can be collected from."""
    try:
        ast.parse(data.decode("utf-8").removeprefix("\ufeff"))
        return True
    except UnicodeDecodeError:
        return False
    except (SyntaxError, ValueError):
        return False
    except (RecursionError, MemoryError):
        return None


def one(job):
    cli, root, seed, mode = job
    rng = random.Random(seed)
    os.makedirs(root + ".x")
    os.chmod(root + ".x", 0o755)
    python, started = recording_python(root + ".x")
    p = Project(rng, root, native=False)
    args = p.args() if rng.random() < 0.4 else []
    uid = 65534 if rng.random() < 0.3 else None
    runner = ["--runner", rng.choice(["native", "pytest"])] if rng.random() < 0.85 else []
    extra = rng.choice([[], [], ["-n", "3"], ["-n", "auto", "--dist", "loadfile"], ["--maxprocesses", "2"], ["--dist", "no"], ["-e", "A=B"]])
    only = rng.random() < 0.4
    before = cli.listing(args, root, python=python, uid=uid)
    flags = runner + extra + (["--collect-only"] if only else [])
    rec = {"files": p.files, "config": p.config, "args": args, "flags": flags, "uid": uid, "odd": {}}
    if before.errors or before.rc:
        return rec, "generator", before, None, None
    dirs = [d for d, _ in p.dirs]
    broken, odd, circular = set(), set(), set()

    def add(kind, data):
        for _ in range(20):
            name = p.file_name()
            if name is None:
                return
            rel = os.path.join(rng.choice(dirs), f"{name[:-3]}")
            # a name of its own, still matching the configured patterns
            if p.test_file(os.path.basename(rel) + ".py") and not os.path.lexists(os.path.join(root, rel + ".py")):
                break
        else:
            return
        stem, rel = os.path.basename(rel), rel + ".py"
        if kind == "odd" and data in CIRCULAR:
            circular.add(rel)
        if kind == "odd":
            data = data.replace("{stem}", stem) if stem.isidentifier() else data.replace("{stem}", "nowhere")
        raw = data if isinstance(data, bytes) else data.encode("utf-8", "surrogatepass")
        ok = parses(raw)
        if ok is None:
            return
        if kind == "unreadable":
            if uid is None:
                return
            ok = False
        write_file(os.path.join(root, rel), raw)
        if kind == "unreadable":
            os.chmod(os.path.join(root, rel), rng.choice([0o000, 0o200, 0o100]))
        rec["odd"][rel] = raw[:1500]
        (odd if ok else broken).add(rel)
        if ok and kind == "mutant":
            circular.add(rel)

    if mode == "broken":
        for _ in range(rng.choice([1, 1, 2, 4, 8])):
            kind = rng.choice(["syntax", "syntax", "bytes", "mutant", "odd", "odd", "unreadable", "stdlib"])
            if kind == "syntax":
                s = rng.choice(SYNTAX)
                add(kind, s if rng.random() < 0.5 else VALID + s if rng.random() < 0.5 else s + VALID)
            elif kind == "bytes":
                add(kind, (VALID.encode() if rng.random() < 0.3 else b"") + rng.choice(BYTES))
            elif kind == "mutant":
                add(kind, mutate(rng, rng.choice([VALID, rng.choice(ODD)[:20000] or "x", rng.choice(list(p.files.values())) or "y"])))
            elif kind == "stdlib":
                add(kind, open(rng.choice(STDLIB), "rb").read())
            else:
                add(kind, rng.choice(ODD) if kind == "odd" else VALID)
    elif mode == "many":        # so many that any limit on them would show
        for _ in range(rng.choice([15, 25, 60, 110])):
            add("syntax", rng.choice(SYNTAX) if rng.random() < 0.7 else rng.choice(BYTES))
    elif mode == "odd":
        for _ in range(rng.choice([1, 3, 6])):
            kind = rng.choice(["odd", "odd", "stdlib"])
            add(kind, rng.choice(ODD) if kind == "odd" else open(rng.choice(STDLIB), "rb").read())
    if mode == "helper":
        helpers = [f for f in p.files if f.endswith(".py") and not p.test_file(os.path.basename(f)) and os.path.basename(f)[:-3].rstrip("0123456789") in ("helpers", "base", "common", "mixins")]
        if not helpers:
            return rec, "generator", before, None, None
        h = rng.choice(helpers)
        data = rng.choice([rng.choice(SYNTAX).encode(), rng.choice(BYTES), rng.choice(ODD).replace("{stem}", "nowhere").encode("utf-8", "surrogatepass"), mutate(rng, p.files[h]).encode(), b"", None])
        os.unlink(os.path.join(root, h))
        if data is not None:
            write_file(os.path.join(root, h), data)
        rec["odd"][h] = data and data[:1500]
        parents = os.path.dirname(h).split("/") if "/" in h else []
        importable = all("/".join(parents[:k + 1]) + "/__init__.py" in p.files for k in range(len(parents)))
        needs = (p.file_name() or "")[:-3]
        if data is not None and parses(data) is False and importable and needs and p.test_class("TestNeeds") and not os.path.lexists(os.path.join(root, needs + ".py")):
            # a file that takes a base class from the broken one can't be collected either
            dotted = h[:-3].replace("/", ".")
            data = rng.choice([f"from {dotted} import Some\nclass TestNeeds(Some):\n", f"import {dotted}\nclass TestNeeds({dotted}.Some):\n",
                               f"from {dotted} import Some as S\nclass Between(S): pass\nclass TestNeeds(Between):\n"]) + "    def test_x(self): pass\n"
            write_file(os.path.join(root, needs + ".py"), data)
            rec["odd"][needs + ".py"] = data
            broken.add(needs + ".py")
        # whoever takes something from it, directly or not, may fail or lose tests
        touched = {h}
        while True:
            stems = [os.path.basename(t)[:-3] if not t.endswith("__init__.py") else os.path.basename(os.path.dirname(t)) for t in touched]
            more = {f for f, t in p.files.items() if f.endswith(".py") and any(re.search(rf"(?<!\w){re.escape(s)}(?!\w)", t) for s in stems)} - touched
            if not more:
                break
            touched |= more
        for _ in range(4):      # links may lead to links
            touched |= {link + f[len(rel):] for link, target in p.links.items() for rel in [os.path.relpath(target, root)]
                        for f in touched if f == rel or f.startswith(rel + "/")}
        odd |= touched
        circular |= touched
    missing = None
    if mode == "missing":
        if rng.random() < 0.5:
            add("syntax", rng.choice(SYNTAX))
        t = rng.choice(p.tests)[0]
        missing = rng.choice(["no_such", "no/such/test_a.py", t + "x", t + "::test_a", t + "/x", os.path.join(root, "gone"), "é", " ", "a b", "../" + os.path.basename(root) + "/gone",
                              os.path.join(os.path.dirname(t), "test_gone.py"), "x" * 300, "*.py", "test_*"])
        if rng.random() < 0.25:         # a link to nowhere, to itself, or into a file
            missing = os.path.join(rng.choice(dirs), "dangling" + rng.choice(["", ".py", "/x"]))
            os.symlink(rng.choice(["nowhere", "dangling", "../nowhere/test_a.py", os.path.join(root, t, "x")]), os.path.join(root, missing.removesuffix("/x")))
        if os.path.exists(os.path.join(root, missing)):
            return rec, "generator", before, None, None
        args = rng.choice([[missing], [t, missing], [missing, t], [".", missing, t]])
        rec["args"] = args
    # which of the added files lie where the run looks
    starts = [os.path.normpath(os.path.join(root, a)) for a in args or [t for t in p.config.get("testpaths", []) if os.path.exists(os.path.join(root, t))] or ["."]]
    rec["missing"] = missing

    def looked_at(rel):
        full = os.path.join(root, rel)
        return any(s == full or full.startswith(s.rstrip("/") + "/") for s in starts)

    broken = {b for b in broken if looked_at(b)}
    try:
        run = Listing(cli.rtest([*args, *flags], root, python=python, uid=uid, timeout=100))
    except Inconclusive as e:
        if "time limit" not in str(e):
            raise
        return rec, "the run does not end: nothing after 100 s", before, before, (broken, odd)
    after = open(started).read().splitlines()
    rec["started"] = after[:5]
    return rec, judge(mode, rec, before, run, broken, odd, circular, only, bool(after)), before, run, (broken, odd)


def judge(mode, rec, before, run, broken, odd, circular, only, started):
    if run.rc < 0 or run.rc > 4 or "panicked" in run.err or "PanicException" in run.err or "Traceback" in run.err:
        return f"collection crashed: status {run.rc}: {run.err[-300:]}"
    if mode == "missing":
        if run.rc != 4:
            return f"status {run.rc} though {rec['missing']!r} does not exist"
        if rec["missing"].split("/")[-1] not in run.err + run.raw:
            return f"the missing path {rec['missing']!r} is not named"
        return "something was executed although a path does not exist" if started else None
    own = [n for n in run.nodes if n.split("::")[0] not in odd]
    kept = [n for n in before.nodes if n.split("::")[0] not in odd]
    if own != kept:
        return f"other files' tests changed: lost {sorted(set(kept) - set(own))[:5]}, new {sorted(set(own) - set(kept))[:5]}"
    failed = {e for e in run.error_nodes}
    # a class among its own bases is an error, too; whether it must be is not fixed here
    if not broken <= failed or not failed <= broken | circular:
        return f"broken files not reported {sorted(broken - failed)[:5]}, sound files reported {sorted(failed - broken - circular)[:5]}"
    if len(run.error_nodes) != len(failed):
        return f"an error is reported twice: {run.error_nodes}"
    if failed:
        if run.rc != 1:
            return f"status {run.rc} with collection errors"
        if started:
            return "something was executed although there are collection errors"
        return None
    if not run.nodes:
        if not run.none and "No tests" not in run.text:
            return "nothing collected, and the run does not say so"
        if run.rc:
            return f"status {run.rc} where nothing is collected"
        return "something was executed although nothing is collected" if started else None
    if only:
        return (f"status {run.rc} of collecting" if run.rc else None) or ("something was executed" if started else None)
    return None if started else "nothing was executed although tests are collected and there are no errors"


EMPTY = [{}, {"README": "x"}, {"helper.py": "def test_a(): pass\n"}, {"test_a.py": ""}, {"test_a.py": "def helper(): pass\nclass TestA:\n    def helper(self): pass\n"},
         {"build/test_a.py": VALID}, {"test_a.py": "class TestA:\n    def __init__(self): pass\n    def test_x(self): pass\n"}, {"pyproject.toml": "[tool.pytest.ini_options]\npython_files = ['check_*.py']\n", "test_a.py": VALID},
         {"pyproject.toml": "[tool.pytest.ini_options]\npython_functions = ['x_*']\n", "test_a.py": VALID}, {"pyproject.toml": "[tool.pytest.ini_options]\ntestpaths = ['sub']\n", "sub/x.txt": "", "test_a.py": VALID},
         {"test_a.txt": VALID}, {"pyproject.toml": "[tool.pytest.ini_options]\npython_files = []\n", "README": ""}, {"test_a.py/x": "y"}]


def empty(job):
    cli, root, seed, _ = job
    rng = random.Random(seed)
    os.makedirs(root + ".x")
    python, started = recording_python(root + ".x")
    files = rng.choice(EMPTY)
    os.makedirs(root)
    for f, t in files.items():
        write_file(os.path.join(root, f), t)
    args = rng.choice([[], [], ["."], [rng.choice(sorted(files))] if files else []])
    if args and ("build/test_a.py" in args or "testpaths" in str(files)):
        args = []       # what is asked for is collected
    flags = ["--runner", rng.choice(["native", "pytest"])] + rng.choice([[], ["--collect-only"], ["-n", "2"], ["-n", "0"], ["--dist", "loadscope"]])
    r = cli.rtest([*args, *flags], root, python=python)
    run = Listing(r)
    ran = open(started).read()
    rec = {"files": files, "args": args, "flags": flags, "started": ran[:500]}
    bad = None
    if run.rc != 0:
        bad = f"status {run.rc} where nothing is collected"
    elif not re.search(r"No tests (collected|found)", run.text):
        bad = "nothing collected, and the run does not say so"
    elif ran:
        bad = "something was executed although nothing is collected"
    elif "panicked" in run.err:
        bad = "crashed"
    return rec, bad, None, run, (set(), set())


def main(ck):
    cli, base, rng = Cli(ck), ck.scratch(), ck.rng
    os.chmod(base, 0o755)
    modes = ["broken"] * 26 + ["many"] * 2 + ["odd"] * 8 + ["missing"] * 8 + ["empty"] * 6 + ["helper"] * 12
    for rnd in ck.rounds(ck.n(20, 30), ck.n(10, 300)):
        jobs = []
        for k, mode in enumerate(modes):
            root = os.path.join(base, f"p{rnd}-{k}")
            if mode != "empty":
                os.makedirs(root)
            jobs.append((cli, root, rng.random(), mode))
        for (_, root, seed, mode), (rec, bad, before, run, sets) in zip(jobs, W.pmap(lambda j: (empty if j[3] == "empty" else one)(j), jobs)):
            if bad == "generator":
                ck.count("generator")
                ck.case(seed, nontrivial=False)
            else:
                ck.case((mode, rec["files"], rec.get("odd"), rec["args"], rec["flags"]),
                        sample={"mode": mode, "args": rec["args"], "flags": rec["flags"], "added": {k: repr(v)[:80] for k, v in rec.get("odd", {}).items()}})
                ck.count(mode)
                ck.count("broken_files", len(sets[0]))
                ck.count("broken_bases", mode == "helper" and len(sets[0]))
                ck.count("odd_files", len(sets[1]))
                ck.count("executions", bool(rec["started"]))
                ck.count("unprivileged", bool(rec.get("uid")))
                if bad:
                    ck.violation(f"{mode} {rec['args']} {rec['flags']}: {bad}", {"root": root, **rec, **run.brief()})
            ck.drop(root)
            ck.drop(root + ".x")
    if ck.counts.get("generator", 0) > ck.evals * 0.3:
        print("C24: note: many projects were not usable")


if __name__ == "__main__":
    Check("C24", "Projects with files added that cannot be collected (syntax errors, undecodable bytes, token-level mutants, unreadable for "
          "an unprivileged user) or are merely odd (circular inheritance and imports, malformed decorators, self-referring constants, "
          "large or deep sources, modules of the standard library), helper modules broken, emptied or removed, missing path arguments, and projects without tests, run with both "
          "runners, with and without --collect-only, sys.executable being a recording stand-in. Distinct by files, arguments and options.",
          level="fault_enumeration",
          assumptions=["the parser is the stand-in for ruff's, built on CPython's grammar; nesting stays moderate"]).main(main, 100)
