"""C07: setup and teardown bracket each test on a fresh instance (trace-specification monitor over the event log)."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import workers as W
from bodies import BODIES, HEAD, by_nodeid, indent
from vlib import Check, write_file

RAISE = {"assert": ("assert False, 'hook'", "failed", "AssertionError"), "value": ("raise ValueError('hook')", "error", "ValueError"),
         "exit": ("sys.exit(0)", "error", "SystemExit"), "base": ("raise MyBase('hook')", "error", "MyBase"),
         "skip": ("import pytest; pytest.skip('hook')", "error", "Skipped"), "generator": ("raise GeneratorExit", "error", "GeneratorExit"),
         "stop": ("raise StopIteration", "error", "StopIteration"), "key": ("{}['x']", "error", "KeyError"),
         **{x: (f"raise {x}('hook')", "error", x) for x in ["OSError", "TimeoutError", "ConnectionError", "RuntimeError", "ImportError", "AttributeError", "MemoryError",
                                                           "RecursionError", "StopAsyncIteration", "BaseException", "NotImplementedError", "TypeError"]}}
SETUPS, TEARDOWNS = ("setup_method", "setUp"), ("teardown_method", "tearDown")
PREFIX = '''
import itertools, unittest
_new = itertools.count()
def _see(what, self, where):
    """What happened, on which instance, and whether the instance is as fresh as it should be."""
    d = vars(self)
    if "_token" not in d:
        d["_token"] = next(_new)
        d["_fresh"] = sorted(k for k in d if k not in ("_token", "_fresh") and k.startswith("mark"))
    ev(what, where, type(self).__name__, d["_token"], d["_fresh"])
    d["mark_" + what] = d.get("mark_" + what, 0) + 1
'''


class Gen:
    def __init__(self, rng, rel):
        self.rng, self.rel = rng, rel
        self.lines = [HEAD + PREFIX]
        self.want = {}      # nodeid -> expected (events, outcome or None, type or None)
        self.classes = []   # (name, hooks, tests): what subclasses inherit

    def hook(self, name, cls, base_has):
        """One hook: text, and what calling it does: (the places it reports, behaviour that ends it or None)."""
        r = self.rng
        where = f"{cls}.{name}"
        bad = r.choice(list(RAISE)) if r.random() < 0.22 else None
        sup = base_has is not None and r.random() < 0.5
        places, text = [], [f"    def {name}(self):"]
        kind = "setup" if name in SETUPS else "teardown"
        steps = ["see"] + (["super"] if sup else [])
        r.shuffle(steps)
        for s in steps:
            if s == "see":
                text.append(f"        _see({kind!r}, self, {where!r})")
                places.append(where)
            else:
                text.append(f"        super({cls}, self).{name}()")
                places += base_has[0]
                if base_has[1]:
                    return text, (places, base_has[1])
        if bad:
            text.append(f"        {RAISE[bad][0]}")
        return text, (places, bad)

    def klass(self, k):
        r = self.rng
        name = f"TestC{k}" if r.random() < 0.85 else f"Base{k}"
        base = r.choice(self.classes) if self.classes and r.random() < 0.4 else None
        case = base is None and r.random() < 0.15
        hooks = dict(base[1]) if base else {}
        tests = dict(base[2]) if base else {}
        L = self.lines
        L.append(f"class {name}({base[0]}):" if base else f"class {name}(unittest.TestCase):" if case else f"class {name}:")
        if case:    # the empty hooks every such class inherits
            hooks = {"setUp": ([], None), "tearDown": ([], None)}
        for h in SETUPS + TEARDOWNS:
            p = r.random()
            if p < 0.38:
                text, what = self.hook(h, name, hooks.get(h))
                L += text
                hooks[h] = what
            elif p < 0.41:
                L.append(f"    {h} = None")
                hooks.pop(h, None)
        for j in range(r.choice([1, 2, 3])):
            m = r.choice([f"test_{j}", f"test_{k}_{j}"])
            b = r.choice(list(BODIES)) if r.random() < 0.7 else "ok"
            cases = r.choice([None, None, None, ["p", "q"]])
            if cases:
                L.append(f"    @rtest.mark.cases('case', {cases!r})")
            L += [f"    def {m}(self{', case' if cases else ''}):", f"        _see('body', self, {name + '.' + m!r})"]
            if case and r.random() < 0.5:
                L += ["        self.assertEqual([1], [1])", "        with self.assertRaises(KeyError): {}[1]"]
            L += indent(BODIES[b][0], " " * 8)
            tests[m] = (f"{name}.{m}", b, cases)
        L += ["    pass", ""]
        self.classes.append((name, hooks, tests))
        if not name.startswith("Test"):
            return
        setup = next((hooks[h] for h in SETUPS if h in hooks), ([], None))
        teardown = next((hooks[h] for h in TEARDOWNS if h in hooks), ([], None))
        for m, (where, b, cases) in tests.items():
            for suffix in [f"[{c}]" for c in cases] if cases else [""]:
                ev = [("setup", p) for p in setup[0]]
                if setup[1]:
                    o, et = RAISE[setup[1]][1:]
                else:
                    ev += [("body", where)] + [("teardown", p) for p in teardown[0]]
                    o, et = BODIES[b][1:]
                    if teardown[1]:
                        o = et = None if o == "passed" else "not passed"
                        o = et = "not passed"
                self.want[f"{self.rel}::{name}::{m}{suffix}"] = (name, ev, o, et)

    def build(self):
        for k in range(self.rng.choice([1, 2, 4, 7])):
            self.klass(k)
        return "\n".join(self.lines) + "\n"


def judge(run, want):
    if run.results is None:
        return f"no readable report (status {run.rc})"
    got = by_nodeid(run.results)
    if set(got) != set(want) or any(len(v) != 1 for v in got.values()):
        return f"results for {sorted(set(got) ^ set(want))[:3]} missing or in excess"
    for nid, (_, _, o, et) in want.items():
        r = got[nid][0]
        if o == "not passed":
            if r["outcome"] not in ("failed", "error"):
                return f"{nid!r} is {r['outcome']} although its teardown raised"
        elif r["outcome"] != o or (et and r["error_type"] != et):
            return f"{nid!r} is {r['outcome']} ({r['error_type']}) instead of {o} ({et})"
    # Events in order of happening: each instance's events are consecutive, on a fresh instance, and one test's trace.
    traces, last = [], None
    for _, what, where, cls, token, fresh in run.events:
        if fresh:
            return f"an instance of {cls} was used before ({fresh})"
        if token != last:
            traces.append((cls, token, []))
            last = token
        traces[-1][2].append((what, where))
    tokens = [t[1] for t in traces]
    if len(set(tokens)) != len(tokens):
        return "the events of two instances are interleaved"
    left = [(c, t) for c, _, t in traces]
    for nid, (cls, ev, _, _) in want.items():
        if not ev:
            continue
        if (cls, ev) not in left:
            near = [t for c, t in left if c == cls][:4]
            return f"{nid!r}: expected the trace {ev} on one instance; traces of {cls}: {near}"
        left.remove((cls, ev))
    return f"unexpected traces {left[:3]}" if left else None


def main(ck):
    site, base, rng = build.python_site(), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(3, 12), ck.n(8, 300)):
        jobs = []
        for k in range(32):
            root = os.path.join(base, f"p{rnd}-{k}")
            g = Gen(random.Random(rng.random()), "test_hooks.py")
            text = g.build()
            write_file(os.path.join(root, "test_hooks.py"), text)
            jobs.append((root, text, g.want))
        done = W.pmap(lambda j: W.WorkerRun(site, j[0], [os.path.join(j[0], "test_hooks.py")]), jobs)
        for (root, text, want), r in zip(jobs, done):
            ck.case(text, nontrivial=any(len(e) > 1 for _, e, _, _ in want.values()),
                    sample={"tests": len(want), "traces": [v[1] for v in list(want.values())[:3]]})
            ck.count("tests", len(want))
            ck.count("events", len(r.events))
            ck.count("setup_raised", sum(all(k != "body" for k, _ in e) and bool(e) for _, e, _, _ in want.values()))
            ck.count("teardown_raised", sum(o == "not passed" for *_, o, _ in want.values()))
            bad = judge(r, want)
            if bad:
                ck.violation(bad[:1200], {"text": text, "expected": want, **r.brief()})
            ck.drop(root)
            ck.drop(root + ".run")


Check("C07", "Generated classes (own, inherited, overridden, absent hooks of both spellings, hooks calling the inherited one, hooks "
      "disabled by None, unittest classes, cases) with hooks that return or raise in 20 ways and bodies of all kinds of C05; the "
      "trace of every instance compared with the specification. Non-trivial: some test has a hook; distinct by module text.",
      assumptions=["hooks take no argument but the instance", "the outcome when teardown raises is only required not to be a pass"]).main(main, 40)
