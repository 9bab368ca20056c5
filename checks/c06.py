"""C06: which functions and methods the worker runs (reference model of name selection and inheritance)."""
import fnmatch
import os
import random
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import workers as W
from bodies import by_nodeid
from vlib import Check, write_file

FNAMES = ["test_a", "test_b", "testc", "test", "Test_d", "it_works", "it_", "check_spec", "a_spec", "should_x", "x_should_y", "helper",
          "_test_p", "test_B", "tESt", "teest", "test_é", "te_st", "spec", "xtest_", "test__x__", "contest"]
CNAMES = ["TestA", "TestB", "Test", "TestC_1", "test_low", "Testing", "SpecOne", "OneSpec", "CheckX", "Base", "Mixin", "_TestP", "XTest",
          "MyTestCase", "TestÉ", "Tset", "TestBase"]
FPATS = [["test*"], ["test_*"], ["test"], ["it_*", "*_spec"], ["test*", "test_*", "t*"], ["[tc]*_?"], ["*should*"], ["te?t*"], ["[!t]*_spec", "test_[a-b]"],
         ["test*", "it_*"], ["nothing*"], ["it", "test_a"], ["te", "*_spec"], ["_test*", "it_*"], ["_t", "*_a"]]
CPATS = [["Test*"], ["Test"], ["*Spec", "Spec*"], ["Test*", "*Test*"], ["[A-Z]*"], ["Te?t*"], ["Check*", "TestA"], ["test*"], ["None*"], ["[!T]*"], ["Spec", "TestA"], ["Ch", "*T"], ["_T*", "Test*"]]

HEAD = """import functools
import rtest
from rtv_log import ev

def _hit(uid, *who):
    ev('call', uid)
    print(uid)

def _plain(f):
    def wrapper(*a, **k):
        return f(*a, **k)
    return wrapper

def _wrapped(f):
    @functools.wraps(f)
    def wrapper(*a, **k):
        return f(*a, **k)
    return wrapper

class _Callable:
    def __init__(self, uid): self.uid = uid
    def __call__(self, *a): _hit(self.uid)
    __name__ = 'test_callable'

"""
HELPER = """from rtv_log import ev
def _hit(uid):
    ev('call', uid)
    print(uid)
def test_imported(): _hit('H:test_imported')
def it_imported(): _hit('H:it_imported')
def helper_imported(): _hit('H:helper_imported')
class TestImported:
    def test_m(self): _hit('H:TestImported.test_m')
    def it_m(self): _hit('H:TestImported.it_m')
class Base2:
    def test_inh(self): _hit('H:Base2.test_inh')
    def a_spec(self): _hit('H:Base2.a_spec')
"""
HELPER_CLASSES = {"TestImported": {"test_m": "H:TestImported.test_m", "it_m": "H:TestImported.it_m"},
                  "Base2": {"test_inh": "H:Base2.test_inh", "a_spec": "H:Base2.a_spec"}}


# a project module named like one of the standard library
NAMESAKE = HELPER.split("def test_imported")[0] + """class WithConstructor:
    def __init__(self): pass
    def test_inh(self): _hit('constructor')
class Plain:
    def test_inh(self): _hit('N:Plain.test_inh')
"""


class Model:
    """Builds the text of a module and, in parallel, what each name of it is."""

    def __init__(self, rng, rel):
        self.rng, self.rel = rng, rel
        self.lines = [HEAD]
        self.funcs = {}         # module-level name -> uid of a function, or None for anything that is not one
        self.classes = {}       # module-level name -> shadow type whose members are uid strings or None
        self.shadow = {}
        self.n = 0

    def uid(self, what):
        self.n += 1
        return f"{self.rel}#{self.n}:{what}"

    def function(self, name):
        r, u = self.rng, None
        kind = r.choice(["def"] * 6 + ["lambda", "alias", "plain", "wrapped", "cases", "partial", "callable", "value", "builtin", "shadowed", "nested", "del"])
        u = self.uid(name)
        L = self.lines
        if kind == "alias" and any(self.funcs.values()):
            src = r.choice([k for k, v in self.funcs.items() if v])
            L.append(f"{name} = {src}")
            self.funcs[name] = self.funcs[src]
            self.classes.pop(name, None)
            return
        if kind == "lambda":
            L.append(f"{name} = lambda: _hit({u!r})")
        elif kind in ("plain", "wrapped"):
            L += [f"@_{kind}", f"def {name}(): _hit({u!r})"]
        elif kind == "partial":
            L.append(f"{name} = functools.partial(_hit, {u!r})")
            u = None
        elif kind == "callable":
            L.append(f"{name} = _Callable({u!r})")
            u = None
        elif kind == "value":
            L.append(f"{name} = {r.choice(['5', 'None', '[]', repr('text'), 'rtest'])}")
            u = None
        elif kind == "builtin":
            L.append(f"{name} = print")
            u = None
        elif kind == "shadowed":
            L += [f"def {name}(): _hit('shadowed {u}')", f"def {name}(): _hit({u!r})"]
        elif kind == "nested":
            L += [f"def {name}():", f"    def test_inner(): _hit('inner {u}')", f"    _hit({u!r})"]
        elif kind == "del":
            L += [f"def {name}(): _hit('deleted {u}')", f"del {name}"]
            self.funcs.pop(name, None)
            self.classes.pop(name, None)
            return
        else:
            L.append(f"def {name}(): _hit({u!r})")
        self.funcs[name] = u
        self.classes.pop(name, None)

    def klass(self, name):
        r, L = self.rng, self.lines
        if self.classes and r.random() < 0.12:
            src = r.choice(list(self.classes))
            L.append(f"{name} = {src}")
            self.classes[name] = self.classes[src]
            self.funcs.pop(name, None)
            return
        bases = []
        for _ in range(5):
            cand = r.sample(list(self.classes), min(len(self.classes), r.choice([0, 1, 1, 2, 3])))
            try:
                type("X", tuple(self.classes[b] for b in cand) or (object,), {})
                bases = cand
                break
            except TypeError:
                continue
        L.append(f"class {name}({', '.join(bases)}):" if bases else f"class {name}:")
        members = {}
        for m in r.sample(FNAMES, r.choice([0, 1, 2, 4, 6])):
            kind = r.choice(["def"] * 7 + ["static", "class", "lambda", "none", "value", "property", "inner", "alias", "plain", "wrapped", "callable", "shared"])
            u = self.uid(f"{name}.{m}")
            if kind == "static":
                L += ["    @staticmethod", f"    def {m}(): _hit({u!r})"]
            elif kind == "class":
                L += ["    @classmethod", f"    def {m}(cls): _hit({u!r})"]
            elif kind == "lambda":
                L.append(f"    {m} = lambda self: _hit({u!r})")
            elif kind == "none":
                L.append(f"    {m} = None")
                u = None
            elif kind == "value":
                L.append(f"    {m} = {r.choice(['3', '[1]', repr('s'), 'int', 'print'])}")
                u = None
            elif kind == "property":
                L += ["    @property", f"    def {m}(self): _hit('property {u}')"]
                u = None
            elif kind == "inner":
                L += [f"    class {m}:", f"        def test_x(self): _hit('inner {u}')"]
                u = None
            elif kind == "callable":
                L.append(f"    {m} = _Callable({u!r})")
                u = None
            elif kind == "alias" and any(members.values()):
                src = r.choice([k for k, v in members.items() if v])
                L.append(f"    {m} = {src}")
                u = members[src]
            elif kind in ("plain", "wrapped"):
                L += [f"    @_{kind}", f"    def {m}(self): _hit({u!r})"]
            elif kind == "shared":
                L += [f"    def {m}(self): _hit('shadowed {u}')", f"    def {m}(self, x=1): _hit({u!r})"]
            else:
                L.append(f"    def {m}(self): _hit({u!r})")
            members[m] = u
        if r.random() < 0.1:
            L.append("    __slots__ = " + "()")
        if r.random() < 0.1:
            members["OPTED_OUT"] = r.choice([True, True, False])
            L.append(f"    __test__ = {not members['OPTED_OUT']}")
        if r.random() < 0.12:
            L.append("    def __init__(self" + r.choice(["): pass", ", x): pass", ", *a): super().__init__(*a)"]))
            members["HAS_INIT"] = True
        L.append("    pass")
        self.classes[name] = type(name, tuple(self.classes[b] for b in bases) or (object,), dict(members))
        self.funcs.pop(name, None)

    def build(self):
        r = self.rng
        if r.random() < 0.5:
            self.lines.append("from rtv_c06_helper import test_imported, it_imported, helper_imported, TestImported, Base2")
            for f in ("test_imported", "it_imported", "helper_imported"):
                self.funcs[f] = f"H:{f}"
            for c, ms in HELPER_CLASSES.items():
                self.classes[c] = type(c, (object,), dict(ms))
        if r.random() < 0.4:
            self.lines.append("from colorsys import WithConstructor, Plain")
            self.classes["WithConstructor"] = type("WithConstructor", (object,), {"HAS_INIT": True, "test_inh": None})
            self.classes["Plain"] = type("Plain", (object,), {"test_inh": "N:Plain.test_inh"})
        for _ in range(r.choice([1, 4, 10, 18])):
            if r.random() < 0.5:
                self.function(r.choice(FNAMES))
            else:
                self.klass(r.choice(CNAMES))
        if r.random() < 0.3:
            self.lines.append("test_instance = _Callable('instance')\nTestInstance = _Callable('instance')")
            for x in ("test_instance", "TestInstance"):
                self.funcs[x] = None
                self.classes.pop(x, None)
        if r.random() < 0.1:
            u = self.funcs["__dir__"] = self.uid("dir")
            self.lines.append(f"def __dir__():\n    _hit({u!r})\n    return {r.choice([[], ['test_a'], ['__name__', 'TestA']])}")
        self.opted_out = r.random() < 0.05
        if self.opted_out or r.random() < 0.03:
            self.lines.append(f"__test__ = {not self.opted_out}")
        return "\n".join(self.lines) + "\n"

    def expected(self, cpats, fpats):
        def ok(name, pats):
            return any(name.startswith(p) or (set("*?[") & set(p) and fnmatch.fnmatchcase(name, p)) for p in pats)
        want = {}
        if self.opted_out:
            return want
        for n, u in self.funcs.items():
            if u and ok(n, fpats):
                want[f"{self.rel}::{n}"] = u
        for n, c in self.classes.items():
            if not ok(n, cpats) or hasattr(c, "HAS_INIT") or getattr(c, "OPTED_OUT", False):
                continue
            for m in {m for k in c.__mro__[:-1] for m in vars(k) if not m.startswith("__")}:
                u = getattr(c, m)
                if isinstance(u, str) and ":" in u and ok(m, fpats):
                    want[f"{self.rel}::{n}::{m}"] = u
        return want


def prepare(base, tag, seed):
    rng = random.Random(seed)
    root = os.path.join(base, f"p{tag}")
    cp, fp = rng.choice(CPATS), rng.choice(FPATS)
    if rng.random() < 0.5:
        cp = ["Test*"]
    if rng.random() < 0.5:
        fp = rng.choice([["test*"], ["test*"], ["test_*", "it_*"]])
    files, want, texts = [], {}, {}
    for i in range(rng.choice([1, 2, 4])):
        rel = rng.choice(["", "d/", "e f/"]) + rng.choice([f"test_{i}.py", f"check{i}.py"])
        m = Model(rng, rel)
        texts[rel] = m.build()
        write_file(os.path.join(root, rel), texts[rel])
        files.append(os.path.join(root, rel))
        want.update(m.expected(cp, fp))
    write_file(os.path.join(root, "rtv_c06_helper.py"), HELPER)
    write_file(os.path.join(root, "colorsys.py"), NAMESAKE)
    return root, files, cp, fp, want, texts


def run_worker(site, base, root, files, cp, fp):
    """Run where --root is not the working directory too, and without the options that say the defaults."""
    pick = random.Random(os.path.basename(root))
    if cp == ["Test*"] and pick.random() < 0.5:
        cp = None
    if fp == ["test*"] and pick.random() < 0.7:
        fp = None
    return W.WorkerRun(site, root, files, cp, fp, cwd=pick.choice([root, base]))


def judge(r, want):
    if r.results is None:
        return f"no readable report (status {r.rc})"
    got = by_nodeid(r.results)
    for n, rs in got.items():
        if len(rs) > 1:
            return f"{n!r} is reported {len(rs)} times"
    if set(got) != set(want):
        return f"not run: {sorted(set(want) - set(got))[:4]}; run without being selected: {sorted(set(got) - set(want))[:4]}"
    for n, rs in got.items():
        if rs[0]["outcome"] != "passed" or rs[0]["stdout"] != want[n] + "\n":
            return f"{n!r} is {rs[0]['outcome']} ({rs[0].get('error_type')}) and ran {rs[0]['stdout'].strip()!r} instead of {want[n]!r}"
    calls = Counter(e[2] for e in r.events if e[1] == "call")
    if calls != Counter(want.values()):
        return f"calls not accounted for by a result: {list((calls - Counter(want.values())).items())[:4]}"
    return None


def main(ck):
    site, base, rng = build.python_site(), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(2, 8), ck.n(6, 250)):
        runs = [prepare(base, f"{rnd}-{k}", rng.random()) for k in range(32)]
        done = W.pmap(lambda p: run_worker(site, base, *p[:4]), runs)
        for (root, files, cp, fp, want, texts), r in zip(runs, done):
            ck.case((cp, fp, sorted(texts.items())), nontrivial=bool(want),
                    sample={"classes": cp, "functions": fp, "files": len(files), "selected": sorted(want)[:8]})
            ck.count("selected", len(want))
            ck.count("calls", len(r.events))
            bad = judge(r, want)
            if bad:
                ck.violation(f"patterns {cp} {fp}: {bad}"[:1200], {"classes": cp, "functions": fp, "files": texts, "expected": want, **r.brief()})
            ck.drop(root)
            ck.drop(root + ".run")


Check("C06", "Generated modules of 1-18 functions and classes under 22 and 17 names: lambdas, aliases, wrappers with and without "
      "copied names, partials, callable objects, builtins, values, deleted and redefined names, imports; methods, static and "
      "class methods, properties, inner classes, overriding by None or by values, multiple inheritance, own and inherited constructors, classes and modules with __test__ (also from a project module named like one of the standard library); 11 x 10 pattern "
      "lists or the default ones; 1-4 files, from within the root or elsewhere. Non-trivial: something is selected; distinct by texts and patterns.",
      assumptions=["constructors are written as __init__ in the class or a class of the project it inherits from"]).main(main, 40)
