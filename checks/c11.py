"""C11: skipped tests never run and say why (event-log monitor against a model of markers)."""
import os
import random
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import workers as W
from bodies import by_nodeid
from vlib import Check, write_file

PRE = """import functools, unittest
import pytest, rtest
from rtv_log import ev
def plain(f):
    @functools.wraps(f)
    def wrapper(*a, **k): return f(*a, **k)
    return wrapper
class Lookalike:
    name = 'skip_not'
    args = ('never',)
    kwargs = {}
"""
REASONS = ["r", "not ready", "é中文", "with 'quotes' and \"more\"", "line\nbreak", "x" * 500, "%s {}", "0", "None", "tab\t"]
OTHERS = ["@pytest.mark.slow", "@pytest.mark.skipper", "@pytest.mark.skipif(False, reason='never')", "@pytest.mark.usefixtures()", "@plain",
          "@pytest.mark.timeout(5)", "@pytest.mark.noskip('skip')", "@pytest.mark.filterwarnings('ignore')"]


def marker(rng):
    """(decorator text, reason)"""
    q = rng.choice(REASONS)
    return rng.choice([(f"rtest.mark.skip({q!r})", q), (f"rtest.mark.skip(reason={q!r})", q), ("rtest.mark.skip()", ""), (f"pytest.mark.skip({q!r})", q),
                       (f"pytest.mark.skip(reason={q!r})", q), ("pytest.mark.skip()", ""), ("pytest.mark.skip", ""), ("rtest.mark.skip('')", "")])


FILES = ["test_skips.py", "sub/test_skips.py", "test_other.py", "sub/deep/x_test.py"]


class Gen:
    def __init__(self, rng, rel):
        self.rng, self.rel = rng, rel
        self.lines, self.want, self.classes = [PRE], {}, []

    def marks(self, pad=""):
        """Decorators, and the reasons of the skip markers among them (None if there are none)."""
        r, lines, reasons = self.rng, [], None
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            if r.random() < 0.55:
                t, q = marker(r)
                lines.append(f"{pad}@{t}")
                reasons = (reasons or []) + [q]
            else:
                lines.append(pad + r.choice(OTHERS))
        # @plain above would hide nothing: it copies attributes, and marks above it are set on the copy
        return lines, reasons

    def cases(self, pad, skipped):
        r = self.rng
        if r.random() < 0.75:
            return [], "", [""]
        n = r.choice([0, 1, 3])
        return [f"{pad}@{r.choice(['rtest.mark.cases', 'pytest.mark.parametrize'])}('v', {list(range(n))!r})"], "v", [f"[{i}]" for i in range(n)]

    def function(self, k):
        deco, reasons = self.marks()
        c, arg, suffixes = self.cases("", reasons)
        at = self.rng.randrange(len(deco) + 1)
        self.lines += deco[:at] + c + deco[at:] + [f"def test_{k}({arg}):", f"    ev('body', {f'{self.rel}::test_{k}'!r})"]
        for s in suffixes:
            self.want[f"{self.rel}::test_{k}{s}"] = (reasons, f"{self.rel}::test_{k}")

    def klass(self, k):
        r, L = self.rng, self.lines
        base = r.choice(self.classes) if self.classes and r.random() < 0.5 else None
        name = f"TestC{k}"
        deco, reasons = self.marks()
        deco = [d for d in deco if d != "@plain"]
        L += deco + [f"class {name}({base[0]}):" if base else f"class {name}(unittest.TestCase):" if r.random() < 0.1 else f"class {name}:"]
        inherited = list(base[1]) if base and base[1] else []
        if r.random() < 0.25:       # marks assigned in the class body
            t, q = marker(r)
            while not t.startswith("pytest"):
                t, q = marker(r)
            form = r.choice(["{}", "[{}]", "({},)", "[pytest.mark.slow, {}]", "[{}, Lookalike()]", "none"])
            if form == "none":
                L.append("    pytestmark = " + r.choice(["[]", "pytest.mark.slow", "[pytest.mark.slow, pytest.mark.skipif(False, reason='n')]"]))
            elif not any(d.startswith("@pytest") for d in deco):    # a decorator would replace or extend it
                L.append("    pytestmark = " + form.format(t))
                reasons = (reasons or []) + [q]
        allc = (reasons or []) + inherited
        own = allc or None
        methods = dict(base[2]) if base else {}
        if not base and r.random() < 0.7:
            L += ["    def __new__(cls):", f"        ev('new', '{self.rel}:' + cls.__name__)", "        return object.__new__(cls)"]
            L += [f"    def setup_method(self): ev('setup', '{self.rel}:' + type(self).__name__)",
                  f"    def teardown_method(self): ev('teardown', '{self.rel}:' + type(self).__name__)"]
            if r.random() < 0.3:
                L += ["    @classmethod", f"    def setup_class(cls): ev('setup_class', '{self.rel}:' + cls.__name__)", "    setUpClass = setup_class"]
            hooks = True
        else:
            hooks = base[3] if base else False
        for j in range(r.choice([0, 1, 2, 3])):
            md, mr = self.marks("    ")
            c, arg, suffixes = self.cases("    ", mr)
            kind = r.choice(["", "", "", "    @staticmethod", "    @classmethod"])
            params = ", ".join(x for x in ({"": "self", "    @staticmethod": "", "    @classmethod": "cls"}[kind], arg) if x)
            L += ([kind] if kind else []) + md + c + [f"    def test_m{j}({params}):", f"        ev('body', {f'{self.rel}:{name}.test_m{j}'!r})"]
            methods[f"test_m{j}"] = (mr, suffixes, f"{self.rel}:{name}.test_m{j}")
        L.append("    pass")
        self.classes.append((name, own, methods, hooks))
        for m, (mr, suffixes, where) in methods.items():
            for s in suffixes:
                exp = mr if mr is not None else own
                if mr is not None and set(mr) == {""} and own:
                    exp = mr + own
                self.want[f"{self.rel}::{name}::{m}{s}"] = (exp, where)

    def build(self):
        for k in range(self.rng.choice([2, 4, 8])):
            (self.function if self.rng.random() < 0.45 else self.klass)(k)
        return "\n".join(self.lines) + "\n"


def judge(r, gens):
    wanted = {nid: v for g in gens for nid, v in g.want.items()}
    classes = [(g.rel, c[0], c[3]) for g in gens for c in g.classes]
    of = lambda rel, name: [v[0] for nid, v in wanted.items() if nid.split("::")[:2] == [rel, name]]
    if r.results is None:
        return f"no readable report (status {r.rc})"
    got = by_nodeid(r.results)
    if set(got) != set(wanted) or any(len(v) != 1 for v in got.values()):
        return f"results for {sorted(set(got) ^ set(wanted))[:4]} missing, in excess or repeated"
    bodies = Counter()
    for nid, (reasons, where) in wanted.items():
        x = got[nid][0]
        if reasons is None:
            bodies[where] += 1
            if x["outcome"] != "passed":
                return f"{nid!r} carries no skip marker and is {x['outcome']} ({x['error_type']}, {x['error']})"
            continue
        if x["outcome"] != "skipped":
            return f"{nid!r} carries a skip marker and is {x['outcome']}"
        said = (x["error"] or {}).get("reason", "")
        if said not in reasons:
            return f"{nid!r} is skipped for {said!r} instead of {reasons}"
        if x["stdout"] or x["stderr"]:
            return f"{nid!r} is skipped and has output"
    ran = Counter(e[2] for e in r.events if e[1] == "body")
    if ran != bodies:
        return f"bodies run in excess {list((ran - bodies).items())[:3]}, not run {list((bodies - ran).items())[:3]}"
    idle = {f"{rel}:{name}" for rel, name, _ in classes if None not in of(rel, name)}
    early = [e for e in r.events if e[1] == "setup_class" and e[2] in idle]
    if early:
        return f"class setup ran without a test to run: {early[:3]}"
    for what in ("new", "setup", "teardown"):
        exp = Counter()
        for rel, name, hooks in classes:
            if hooks:
                exp[f"{rel}:{name}"] += of(rel, name).count(None)
        seen = Counter(e[2] for e in r.events if e[1] == what)
        if seen != +exp:
            return f"{what} of classes ran {dict(seen)} instead of {dict(+exp)}"
    if r.rc != 0:
        return f"exit status {r.rc}"
    return None


def main(ck):
    site, base, rng = build.python_site(), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(4, 14), ck.n(8, 300)):
        jobs = []
        for k in range(32):
            root = os.path.join(base, f"p{rnd}-{k}")
            gens = [Gen(random.Random(rng.random()), rel) for rel in rng.sample(FILES, rng.choice([1, 1, 2, 3]))]
            texts = {g.rel: g.build() for g in gens}
            for rel, text in texts.items():
                write_file(os.path.join(root, rel), text)
            jobs.append((root, texts, gens))
        done = W.pmap(lambda j: W.WorkerRun(site, j[0], [os.path.join(j[0], rel) for rel in j[1]],
                                            env={"PYTHONWARNINGS": rng.choice(["ignore", "default"])}), jobs)
        for (root, texts, gens), r in zip(jobs, done):
            reasons = [v[0] for g in gens for v in g.want.values()]
            skipped = len(reasons) - reasons.count(None)
            ck.case(list(texts.items()), nontrivial=0 < skipped < len(reasons), sample={"tests": len(reasons), "skipped": skipped,
                    "files": len(gens), "reasons": reasons[:5]})
            ck.count("tests", len(reasons))
            ck.count("files", len(gens))
            ck.count("skipped", skipped)
            ck.count("events", len(r.events))
            bad = judge(r, gens)
            if bad:
                ck.violation(bad[:1200], {"texts": texts, "expected": [g.want for g in gens], **r.brief()})
            ck.drop(root)
            ck.drop(root + ".run")


Check("C11", "Generated functions, methods (also static and class methods) and classes (inherited, with marks assigned in the body) "
      "with 0-2 markers each out of eight spellings of skip in both flavours and eight other decorators, cases, ten reasons; "
      "constructors, hooks and bodies log every call; one to three files with the same names in one worker. Non-trivial: skipped and unskipped tests together; distinct by text.",
      assumptions=["where several skip markers of equal rank apply, any of their reasons will do", "conditional and module-wide markers "
                   "are not skip markers to the native runner"]).main(main, 60)
