"""C10: case decorators expand to the cartesian product with distinct ids (reference-model monitor over generated stacks)."""
import itertools
import json
import os
import random
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import workers as W
from vlib import Check, write_file

# (source text, id; a value without a telling one is named after its argument and position)
VALUES = [("1", "1"), ("0", "0"), ("-7", "-7"), ("10**20", "1" + "0" * 20), ("1.5", "1.5"), ("1.0", "1.0"), ("float('inf')", "inf"), ("1e-9", "1e-09"),
          ("True", "True"), ("False", "False"), ("None", "None"), ("'a'", "a"), ("'b'", "b"), ("'a-b'", "a-b"), ("'b-c'", "b-c"), ("'c'", "c"), ("'a_1'", "a_1"),
          ("'1'", "1"), ("'None'", "None"), ("''", ""), ("'x y'", "x y"), ("'[0]'", "[0]"), ("'::'", "::"), ("'a::b[c]'", "a::b[c]"), ("'/'", "/"),
          ("'\\u00e9'", "\\xe9"), ("'\\u4e2d'", "\\u4e2d"), ("'\\U0001f600'", "\\U0001f600"), ("'a\\nb'", "a\\nb"), ("'\\\\'", "\\\\"),
          ("'\\x00'", "\\x00"), ("'\\x7f'", "\\x7f"), ("'a_2'", "a_2"), ("'L' * 300", "L" * 300), ("[1, 2]", None), ("(1, 'a')", None), ("{}", None),
          ("{'k': 1}", None), ("set()", None), ("object()", None), ("b'x'", "x"), ("b''", ""), ("b'\\xff-1'", "\\xff-1"), ("Color.RED", "Color.RED"),
          ("Color.BLUE", "Color.BLUE"), ("Level.LOW", "3"), ("Text.T", "tee"), ("Mixed.M", "mix"), ("Number.N", "Number.N"), ("Other('raw')", "raw"), ("len", "len"), ("int", "int"), ("helper", "helper"), ("json", "json"),
          ("lambda: 0", "<lambda>"), ("1j", "1j"), ("float('nan')", "nan"), ("[]", None), ("Odd()", None), ("Odd()", None), ("()", None), ("range(3)", None),
          ("Ellipsis", None), ("NotImplemented", None), ("functools.partial(len, ())", None), ("Named()", "nom"), ("re.compile('a.b')", "a.b"),
          ("(1,)", None), ("[5]", None), ("(None,)", None), ("((1, 2),)", None), ("('a',)", None), ("b'a\\n\\x00b'", "a\\n\\x00b"), ("b'\\x7f\\t'", "\\x7f\\t"), ("b'a\\\\n'", "a\\n"), ("'a,b'", "a,b"), ("{1: 2}.keys()", None), ("pathlib.PurePath('p/q')", None), ("decimal.Decimal('1.50')", None), ("datetime.date(2020, 1, 2)", None),
          ("Spoken()", None), ("re.compile(b'x.y\\x00')", "x.y\\x00"), ("uuid.UUID(int=5)", None), ("bytearray(b'z')", None), ("list[int]", "list"), ("Exception('e')", None), ("frozenset()", None),
          ("'A'", "A"), ("'B'", "B"), ("'none'", "none"), ("'TRUE'", "TRUE")]
PRE = ("import datetime, decimal, enum, functools, json, pathlib, re, uuid\nimport pytest, rtest\nfrom rtv_log import ev\n"
       "class Color(enum.Enum):\n    RED = 1\n    BLUE = 'b'\n"
       "class Odd:\n    def __eq__(self, o): return True\n    __hash__ = None\n    def __repr__(self): return 'odd'\n    def __bool__(self): raise TypeError\n"
       "class Level(enum.IntEnum):\n    LOW = 3\n"
       "class Text(enum.StrEnum):\n    T = 'tee'\n"
       "class Mixed(str, enum.Enum):\n    M = 'mix'\n"
       "class Number(int, enum.Enum):\n    N = 7\n"
       "class Other(str):\n    def __str__(self): return 'other'\n"
       "class Spoken:\n    def __str__(self): return 'spoken'\n"
       "class Named:\n    __name__ = 'nom'\n"
       "def helper(): pass\n"
       "_later = []\n"
       "def emptied_later(v):\n    _later.append(v)\n    return v\n"
       "V = [" + ", ".join(s for s, _ in VALUES) + "]\n"
       "def _hit(uid, kw):\n"
       "    print(json.dumps([uid, {k: next((i for i, x in enumerate(V) if x is v), -1) for k, v in kw.items()}]))\n"
       "    ev('call', uid)\n")
# values that are one object in CPython may be found under the first equal index; resolve the same way
_probe = {}
exec(PRE.split("def _hit")[0].replace("import pytest, rtest\nfrom rtv_log import ev\n", ""), _probe)
FIRST = [next(i for i, x in enumerate(_probe["V"]) if x is v) for v in _probe["V"]]


class Spec:
    """One decorator: flavour, argument names, value indexes per entry, explicit ids."""

    def __init__(self, rng, names, flavour):
        self.names, self.flavour = names, flavour
        k = rng.choice([0, 1, 1, 2, 2, 3, 4, 7] if rng.random() < 0.97 else [40])
        pool = range(len(VALUES)) if rng.random() < 0.6 else rng.sample(range(len(VALUES)), 3)
        self.rows = [[rng.choice(pool) for _ in names] for _ in range(k)]
        self.ids = None
        if rng.random() < 0.35:
            self.ids = [rng.choice(["one", "two", "One", "a", "A", "b", "a-b", "", "dup", "é", "x[y]", "a::b", "1", " one ", "  ", "dup_1", None]) for _ in range(k + rng.choice([0, 0, -1, 1]))]
            self.ids = self.ids[:max(0, len(self.ids))]
        if rng.random() < 0.08:     # ids that are what others are made unique with
            self.rows = [[rng.choice(pool) for _ in names] for _ in range(rng.choice([3, 4, 6]))]
            self.ids = [rng.choice(rng.choice([["x", "x_1", "x_2"], ["x", "x", "x_1", "x_1_1"], ["x", "X", "x_1", "X_1"]])) for _ in self.rows]
        if rng.random() < 0.15:     # ids that coincide once joined, for values that are one and the same
            self.rows = [[self.rows[0][0] if self.rows else 0] * len(names) for _ in range(rng.choice([2, 3]))]
            self.ids = rng.choice([["a", "a-b", "b"], ["b-c", "c", "b-c-c"], ["a", "a-a", "a-a-a"], ["-", "", "--"]])[:len(self.rows)]

    def text(self, rng):
        n, pytest = self.names, self.flavour == "pytest"
        form = rng.choice(["str", "list", "tuple", "spaces"])
        args = {"str": repr(",".join(n)), "spaces": repr(" , ".join(n) + rng.choice(["", " ", ","])), "list": repr(list(n)), "tuple": repr(tuple(n))}[form]
        # to pytest, the entries for a sequence of names are sequences, even of one name
        bare = len(n) == 1 and not (pytest and form in ("list", "tuple"))
        rows = [f"V[{r[0]}]" if bare else rng.choice(["({},)", "[{}]"]).format(", ".join(f"V[{i}]" for i in r)) for r in self.rows]
        vals = rng.choice(["[{}]", "({})", "list(({}))" if pytest else "emptied_later([{}])", "iter([{}])"]).format("".join(x + ", " for x in rows))
        ids = ""
        if self.ids is not None:
            forms = ["{!r}", "tuple({!r})"]
            if not pytest:
                forms += ["iter({!r})", "emptied_later({!r})"] + ["dict.fromkeys({!r}).keys()"] * (len(set(self.ids)) == len(self.ids))
            ids = ", ids=" + rng.choice(forms).format(self.ids)
        if not pytest:
            if rng.random() < 0.1:
                return f"rtest.mark.cases(argvalues={vals}, argnames={args}{ids})"
            return f"rtest.mark.cases({args}, {vals}{ids})"
        # a mark is used more than once; only rtest's decorator keeps the values of an iterator
        vals = vals.replace("iter(", "list(")
        form = rng.choice(["{a}, {v}"] * 4 + ["{a}, argvalues={v}", "argvalues={v}, argnames={a}"]).format(a=args, v=vals)
        return f"pytest.mark.parametrize({form}{ids})"

    def cases(self):
        out = []
        for i, r in enumerate(self.rows):
            cid = self.ids[i] if self.ids is not None and i < len(self.ids) else None
            if cid is not None:
                cid = cid.encode("unicode_escape").decode()
            else:
                cid = "-".join(f"{n}{i}" if VALUES[j][1] is None else VALUES[j][1] for n, j in zip(self.names, r))
            out.append((cid, dict(zip(self.names, [FIRST[j] for j in r]))))
        return out


def effective(holders):
    """Of the decorators of each holder in turn, those that count: not pytest's for arguments rtest's already give."""
    out, given = [], set()
    for specs in holders:
        given.update(n for s in specs if s.flavour == "rtest" for n in s.names)
        out += [s for s in specs if s.flavour == "rtest" or given.isdisjoint(s.names)]
    return out


def product(specs):
    """[(parts of the id, arguments)] in order; the first spec is the one nearest the function."""
    out = []
    for combo in itertools.product(*[s.cases() for s in specs]):
        kw = {}
        for _, k in combo:
            kw.update(k)
        out.append(([c for c, _ in combo], kw))
    return out


class Gen:
    def __init__(self, rng, rel):
        self.rng, self.rel, self.n = rng, rel, 0
        self.lines, self.want = [PRE], {}
        self.classes = {}
        self.mixed = 0

    def specs(self, most=3, taken=(), flavour=None, prefix=""):
        r, free, out = self.rng, [x for x in ["a", "b", "c", "x1", "é_arg", "value", "request", "m1", "m2"] if x not in taken], []
        r.shuffle(free)
        flavour = flavour or r.choice(["rtest", "pytest", "mixed"])
        size = 1
        for _ in range(r.choice(range(most + 1))):
            k = r.choice([1, 1, 1, 2, 3])
            if len(free) < k:
                break
            s = Spec(r, [prefix + free.pop() for _ in range(k)], r.choice(["rtest", "pytest"]) if flavour == "mixed" else flavour)
            if size * max(1, len(s.rows)) > 80:
                break
            size *= max(1, len(s.rows))
            out.append(s)
        if len(out) > 1 and r.random() < 0.3:   # ids of two decorators that coincide once joined
            one, two = [s for s in r.sample(out, 2)]
            one, two = sorted((one, two), key=out.index)
            for s, ids in zip((one, two), r.choice([(["a", "a-b"], ["b-c", "c"]), (["", "-"], ["", "-"]), (["x", "x-x"], ["x", "x-x"]),
                                                    (["1", "1-2", "1-2-3"], ["3", "2-3", "z"])])):
                if s.rows:
                    s.rows = [r.choice(s.rows) for _ in range(r.choice([2, len(ids)]))]
                    s.ids = ids[:len(s.rows)]
        for s in [s for s in out if s.flavour == "rtest"]:
            if r.random() < 0.12:       # the same arguments for the other runner
                names = list(s.names)
                r.shuffle(names)
                out.insert(r.randrange(len(out) + 1), Spec(r, names[:r.choice([1, len(names)])], "pytest"))
        self.mixed += len({s.flavour for s in out}) > 1
        return out

    def names(self, specs):
        return list(dict.fromkeys(n for s in specs for n in s.names))

    def decorate(self, specs, pad=""):
        self.lines += [f"{pad}@{s.text(self.rng)}" for s in reversed(specs)]

    def uid(self):
        self.n += 1
        return f"u{self.n}"

    def body(self, uid, names):
        if self.rng.random() < 0.4:
            return "**kw", f"_hit({uid!r}, kw)"
        return ", ".join(names), f"_hit({uid!r}, dict({', '.join(f'{n}={n}' for n in names)}))"

    def function(self, k):
        r, L, u = self.rng, self.lines, self.uid()
        specs = self.specs()
        if r.random() < 0.008:      # over a thousand combinations
            specs = [Spec(r, [n], r.choice(["rtest", "pytest"])) for n in ("a", "b", "c")]
            for s in specs:
                s.rows, s.ids = [[r.randrange(len(VALUES))] for _ in range(r.choice([11, 13]))], None
        name = f"test_{k}"
        params, act = self.body(u, self.names(specs))
        self.decorate(specs)
        L += [f"def {name}({params}):", f"    {act}"]
        self.want[f"{self.rel}::{name}"] = (u, [specs])
        if r.random() < 0.3:    # a wrapper that copies the decorated function's attributes, decorated further
            u2 = self.uid()
            more = self.specs(2, self.names(specs))
            L += [f"@functools.wraps({name})", f"def test_{k}_w(**kw):", f"    _hit({u2!r}, kw)"]
            for s in more:
                L.append(f"test_{k}_w = {s.text(r)}(test_{k}_w)")
            self.want[f"{self.rel}::test_{k}_w"] = (u2, [specs + more])
        elif r.random() < 0.2 and specs:    # one decorator object on two functions
            u2, s = self.uid(), specs[0]
            L += [f"_deco = {s.text(r)}", "@_deco", f"def test_{k}_s(**kw): _hit({u2!r}, kw)"]
            self.want[f"{self.rel}::test_{k}_s"] = (u2, [[s]])
            u3 = self.uid()
            L += ["@_deco", f"def test_{k}_t(**kw): _hit({u3!r}, kw)"]
            self.want[f"{self.rel}::test_{k}_t"] = (u3, [[s]])

    def klass(self, k):
        r, L = self.rng, self.lines
        bases = r.sample(sorted(self.classes), min(len(self.classes), r.choice([0, 1, 1, 2, 2])))
        name = f"TestC{k}"
        try:
            shadow = type(name, tuple(self.classes[b] for b in bases), {})
        except TypeError:
            return
        holders = shadow.__mro__[1:]
        inherited = self.names([s for c in holders for s in c.__dict__.get("specs", [])])
        lists = [n for c in holders for s in [c.__dict__.get("specs", [])] for n in self.names(s)]
        if len(lists) != len(set(lists)):      # two bases give one argument
            return
        own = self.specs(1, inherited, prefix="") if r.random() < 0.5 else []
        first = [own.pop(0)] if own and own[0].flavour == "pytest" and r.random() < 0.5 else []
        self.decorate(own)
        L.append(f"class {name}({', '.join(bases)}):")
        for s in first:
            L.append(f"    pytestmark = {s.text(r)}" if r.random() < 0.5 else f"    pytestmark = [pytest.mark.slow, {s.text(r)}]")
        shadow.specs = first + own
        shadow.tests = {}
        for j in range(r.choice([0, 1, 2])):
            u = self.uid()
            # names no class decorator can use
            specs = self.specs(2, prefix="m_")
            static = r.random() < 0.15
            L += (["    @staticmethod"] if static else [])   # above the others, which otherwise decorate the static method object
            self.decorate(specs, "    ")
            L += [f"    def test_m{j}({'' if static else 'self, '}**kw):", f"        _hit({u!r}, kw)"]
            shadow.tests[f"test_m{j}"] = (u, specs)
        L.append("    pass")
        self.classes[name] = shadow

    def build(self):
        r = self.rng
        for k in range(r.choice([1, 3, 6])):
            (self.function if r.random() < 0.5 else self.klass)(k)
        for name, c in self.classes.items():
            holders = [k.__dict__.get("specs", []) for k in reversed(c.__mro__)]
            for m in {m for k in c.__mro__ for m in k.__dict__.get("tests", ())}:
                u, specs = next(k.__dict__["tests"][m] for k in c.__mro__ if m in k.__dict__.get("tests", ()))
                if len(product(effective([specs]))) * len(product(effective(holders))) > 2000:
                    self.lines.append(f"{name}.{m} = None")
                    continue
                self.want[f"{self.rel}::{name}::{m}"] = (u, [specs], holders)
        self.lines.append("for _v in _later: _v.clear()")
        return "\n".join(self.lines) + "\n"


def counted(want):
    """The decorators that count for a test: its own, then its class's."""
    return [s for holders in want[1:] for s in effective(holders)]


def judge(r, want):
    if r.results is None:
        return f"no readable report (status {r.rc})"
    groups, ids = {}, Counter(x["nodeid"] for x in r.results)
    for x in r.results:
        if ids[x["nodeid"]] > 1:
            return f"{ids[x['nodeid']]} results are called {x['nodeid']!r}"
        try:
            uid, kw = json.loads(x["stdout"])
        except ValueError:
            return f"{x['nodeid']!r} is {x['outcome']} ({x['error_type']}) {(x['error'] or {}).get('traceback', '')[-300:]}"
        if x["outcome"] != "passed":
            return f"{x['nodeid']!r} is {x['outcome']}"
        groups.setdefault(uid + "@" + x["nodeid"].split("[")[0], []).append((x["nodeid"], kw))
    for base, w in want.items():
        specs = counted(w)
        got = groups.pop(w[0] + "@" + base, [])
        exp = product(specs)
        a = Counter(json.dumps(kw, sort_keys=True) for _, kw in got)
        b = Counter(json.dumps(kw, sort_keys=True) for _, kw in exp)
        if a != b:
            return f"{base!r} ran {list((a - b).items())[:3]} in excess and not {list((b - a).items())[:3]}"
        if not specs:
            if got[0][0] != base:
                return f"{base!r} without cases is called {got[0][0]!r}"
            continue
        # What no other entry or combination is called shows in full
        single = [{c for c, n in Counter(c for c, _ in s.cases()).items() if n == 1} for s in specs]
        joined = Counter("-".join(p) for p, _ in exp)
        called = {}
        for name, kw in got:
            called.setdefault(json.dumps(kw, sort_keys=True), set()).add(name)
        for p, kw in exp:
            j, names = "-".join(p), called[json.dumps(kw, sort_keys=True)]
            if joined[j] == 1 and all(c in s for c, s in zip(p, single)) and f"{base}[{j}]" not in names:
                return f"the case {base}[{j}] with {kw} is called {sorted(names)[:3]}"
    return f"tests of unknown origin: {list(groups)[:3]}" if groups else None


def malformed(rng):
    """A test with an entry that does not give its arguments a value each; what it may be called with (identity aside)."""
    names = ["a", "b", "c"][:rng.choice([2, 2, 3])]
    flavour = rng.choice(["rtest.mark.cases", "pytest.mark.parametrize"])
    wrong = rng.choice([[0] * k for k in range(5) if k != len(names)] + [None, None])
    rows = ["(" + ", ".join("1" for _ in names) + ")" for _ in range(rng.choice([0, 1, 2]))]
    rows.insert(rng.randrange(len(rows) + 1), rng.choice(["5", "None", "object()", "1.5"]) if wrong is None else rng.choice(["[{}]", "({})"]).format("".join("0, " for _ in wrong)))
    args = rng.choice([repr(",".join(names)), repr(names)])
    deco = f"@{flavour}({args}, [{', '.join(rows)}])"
    other = "@rtest.mark.cases('d', [1, 2])"
    decos = rng.choice([[deco], [deco, other], [other, deco]])
    text = "import pytest, rtest\nfrom rtv_log import ev\n" + "\n".join(decos) + "\ndef test_bad(a=7, b=7, c=7, d=7):\n    ev('call', a, b, c)\n"
    if rng.random() < 0.4:
        text = (text.split("@")[0] + "\n".join(decos) + "\nclass TestBad:\n    def test_bad(self, a=7, b=7, c=7, d=7):\n        ev('call', a, b, c)\n")
    return text, [1 if n in names else 7 for n in "abc"]


def judge_malformed(r, right):
    if r.results is None:
        return f"no readable report (status {r.rc})"
    calls = [e[2:] for e in r.events if e[1] == "call" and e[2:] != right]
    if calls:
        return f"a test whose entry does not fit its arguments runs with {calls[:3]}"
    if r.rc != 1 or all(x["outcome"] in ("passed", "skipped") for x in r.results):
        return f"an entry that does not fit its arguments goes unnoticed: status {r.rc}, {[(x['nodeid'], x['outcome']) for x in r.results]}"
    return None


# The worker runs the cases of a test in the order of their ids, so the order of the expansion shows only here
ORDER = '''
try:
    from rtest.mark import expand_parametrize as _e
except ImportError:
    _e = None
if _e is not None:
    def _o(name, *a):
        ev("order", name, [{k: next(i for i, x in enumerate(V) if x is v) for k, v in c.kwargs.items()} for c in _e(*a)])
    for _n, _f in sorted(globals().items()):
        if _n.startswith("test_"):
            _o(_n, _f)
        elif _n.startswith("TestC"):
            for _m in dir(_f):
                if _m.startswith("test_") and getattr(_f, _m) is not None:
                    _o(_n + "::" + _m, getattr(_f, _m), _f)
'''


def main(ck):
    site, base, rng = build.python_site(), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(4, 14), ck.n(8, 300)):
        jobs = []
        for k in range(32):
            root = os.path.join(base, f"p{rnd}-{k}")
            g = Gen(random.Random(rng.random()), "test_cases.py")
            text = g.build()
            write_file(os.path.join(root, "test_cases.py"), text + ORDER)
            jobs.append((root, text, g))
        odd = []
        for k in range(8):
            root = os.path.join(base, f"m{rnd}-{k}")
            text, right = malformed(rng)
            write_file(os.path.join(root, "test_cases.py"), text)
            odd.append((root, text, right))
        for (root, text, right), r in zip(odd, W.pmap(lambda j: W.WorkerRun(site, j[0], [os.path.join(j[0], "test_cases.py")]), odd)):
            ck.count("malformed")
            bad = judge_malformed(r, right)
            if bad:
                ck.violation(bad[:1500], {"text": text, **r.brief()})
            ck.drop(root)
            ck.drop(root + ".run")
        done = W.pmap(lambda j: W.WorkerRun(site, j[0], [os.path.join(j[0], "test_cases.py")], env={"PYTHONWARNINGS": "ignore"}), jobs)
        for (root, text, g), r in zip(jobs, done):
            sizes = [len(product(counted(w))) for w in g.want.values()]
            ck.case(text, nontrivial=max(sizes, default=0) > 1, sample={"decorators": [len(counted(w)) for w in g.want.values()], "cases": sizes})
            ck.count("tests", len(g.want))
            ck.count("cases", sum(sizes))
            ck.count("stacked", sum(len(counted(w)) > 1 for w in g.want.values()))
            bad = judge(r, g.want)
            for e in r.events:
                w = g.want.get(f"test_cases.py::{e[2]}") if e[1] == "order" else None
                if w is not None:
                    ck.count("orders")
                    exp = [kw for _, kw in product(counted(w))]
                    if bad is None and e[3] != exp:
                        bad = f"{e[2]} expands in the order {e[3][:4]} instead of {exp[:4]}"
            ck.count("mixed_flavours", g.mixed)
            ck.count("several_bases", sum(len(c.__bases__) > 1 for c in g.classes.values()))
            if bad:
                ck.violation(bad[:1500], {"text": text[len(PRE):], **r.brief()})
            ck.drop(root)
            ck.drop(root + ".run")


Check("C10", f"Generated stacks of 0-3 case decorators of either flavour, also mixed, on functions, methods and classes (several bases, "
      f"overridden, wrapped, static, one decorator on several functions, marks assigned singly or in a list, the same arguments for both "
      f"runners), 1-3 argument names in all spellings, 0-40 entries of {len(VALUES)} values (equal, unhashable, with ids that coincide or "
      "contain separators), explicit ids (too few, too many, empty, repeated, None); entries that do not fit their arguments; calls compared by identity of every "
      "argument with the product, their order in the expansion, and ids that nothing else shares by text. Non-trivial: a test with several cases; distinct by text.",
      assumptions=["an argument is given by one class of a hierarchy, and not by both a class and its method",
                   "no ids given by a function, no pytest.param"]).main(main, 60)
