"""C05: one truthful result per test (reference model of generated bodies against the worker's report and event log)."""
import os
import random
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import workers as W
from bodies import BODIES, HEAD, PASSING, by_nodeid, indent
from vlib import Check, write_file


def make_file(rng, rel, names, quiet):
    """Module text and the expected {nodeid: (outcome, type)}; bodies announce themselves in the event log."""
    lines, want = [HEAD], {}
    rng.shuffle(names)
    k = 0
    while names:
        k += 1
        kind = rng.choice(["function", "function", "class", "cases", "static"] + ["unrunnable"] * (not quiet))
        name = f"test_{k}"
        if kind == "function":
            b = names.pop()
            body, outcome, et = BODIES[b]
            lines += [f"def {name}_{b}():", f"    ev('run', {rel + '::' + name + '_' + b!r})"] + indent(body) + [""]
            want[f"{rel}::{name}_{b}"] = (outcome, et)
            if rng.random() < 0.1:      # another one but for the case of its letters
                lines += [f"def {name}_{b.upper()}():", f"    ev('run', {rel + '::' + name + '_' + b.upper()!r})"] + indent(body) + [""]
                want[f"{rel}::{name}_{b.upper()}"] = (outcome, et)
        elif kind in ("class", "static"):
            lines.append(f"class TestC{k}:")
            for j in range(rng.choice([1, 2, 4])):
                if not names:
                    break
                b = names.pop()
                body, outcome, et = BODIES[b]
                nid = f"{rel}::TestC{k}::test_{j}_{b}"
                deco = rng.choice(["", "", "    @staticmethod", "    @classmethod"]) if kind == "static" else ""
                arg = {"": "self", "    @staticmethod": "", "    @classmethod": "cls"}[deco]
                lines += ([deco] if deco else []) + [f"    def test_{j}_{b}({arg}):", f"        ev('run', {nid!r})"] + indent(body, " " * 8)
                want[nid] = (outcome, et)
            lines += ["    pass", ""]
        elif kind == "cases":
            chosen = sorted({names.pop() for _ in range(min(len(names), rng.choice([2, 3, 5])))})
            lines += [f"@rtest.mark.cases('which', {chosen!r})", f"def {name}(which):",
                      f"    ev('run', {rel + '::' + name!r} + '[' + which + ']')"]
            for b in chosen:
                lines += [f"    if which == {b!r}:"] + indent(BODIES[b][0], " " * 8)
                want[f"{rel}::{name}[{b}]"] = (BODIES[b][1], BODIES[b][2])
            lines.append("")
        else:       # bodies that a plain call does not run
            form = rng.choice(["async", "generator", "asyncgen", "wrapped"])
            lines += ["@_around"] if form == "wrapped" else []
            lines += ["async " * (form != "generator") + f"def {name}_{form}():", "    assert True"] + \
                     (["    yield 1"] if form not in ("async", "wrapped") else []) + [""]
            want[f"{rel}::{name}_{form}"] = ("error", None)
    return "\n".join(lines) + "\n", want


def prepare(base, tag, seed, quiet, lone=False):
    rng = random.Random(seed)
    root = os.path.join(base, f"p{tag}")
    want, files, texts = {}, [], {}
    pool = [b for b in (PASSING if quiet else BODIES)] * (1 if quiet else rng.choice([1, 1, 2]))
    if lone:        # one body that does not pass must decide the exit status
        pool = rng.sample(PASSING, rng.choice([1, 5, 12])) + [rng.choice([b for b in BODIES if b not in PASSING])]
    rng.shuffle(pool)
    if rng.random() < 0.3 and not lone:
        pool = pool[:rng.choice([1, 3, 10])]
    cut = sorted(rng.randrange(len(pool) + 1) for _ in range(rng.choice([0, 1, 3])))
    for i, (a, b) in enumerate(zip([0] + cut, cut + [len(pool)])):
        rel = rng.choice(["", "sub/", "x/y/"]) + f"test_m{i}.py"
        text, w = make_file(rng, rel, pool[a:b], quiet)
        write_file(os.path.join(root, rel), text)
        files.append(os.path.join(root, rel))
        texts[rel] = text
        want.update(w)
    return root, files, want, texts


def endless(rng, root, count):
    """So many tests that do not pass, before some that do."""
    text = HEAD + f"""
@rtest.mark.cases('k', range({count}))
def test_a(k):
    ev('run', 'test_many.py::test_a[' + str(k) + ']')
    assert k < 0
"""
    want = {f"test_many.py::test_a[{k}]": ("failed", "AssertionError") for k in range(count)}
    for k in range(count // 2):
        o, et, how = rng.choice([("error", "KeyError", "{}[1]"), ("passed", None, "pass")])
        text += f"def test_b{k}():\n    ev('run', 'test_many.py::test_b{k}')\n    {how}\n"
        want[f"test_many.py::test_b{k}"] = (o, et)
    write_file(os.path.join(root, "test_many.py"), text)
    return root, [os.path.join(root, "test_many.py")], want, {"test_many.py": text}


def judge(run, want):
    if run.results is None:
        return f"no readable report (status {run.rc})"
    got = by_nodeid(run.results)
    for nid, rs in got.items():
        if nid not in want:
            return f"a result for {nid!r}, which is no test"
        if len(rs) != 1:
            return f"{len(rs)} results for {nid!r}"
    for nid, (outcome, et) in want.items():
        if nid not in got:
            return f"no result for {nid!r}"
        r = got[nid][0]
        if r["outcome"] != outcome:
            return f"{nid!r} reported as {r['outcome']} ({r.get('error_type')}) instead of {outcome}"
        if et is not None and r.get("error_type") != et:
            return f"{nid!r} reported with exception type {r.get('error_type')} instead of {et}"
    bad = any(o in ("failed", "error") for o, _ in want.values())
    if run.rc != (1 if bad else 0):
        return f"exit status {run.rc} with {'some' if bad else 'no'} failed or errored results"
    ran = Counter(e[2] for e in run.events if e[1] == "run")
    for nid, (outcome, et) in want.items():
        if ran[nid] != 1 and not (outcome == "error" and et is None):
            return f"the body of {nid!r} ran {ran[nid]} times"
    return None


def main(ck):
    site, base, rng = build.python_site(), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(2, 8), ck.n(5, 200)):
        jobs = [(base, f"{rnd}-{k}", rng.random(), k % 6 >= 4, k % 6 == 4) for k in range(24)]
        runs = [prepare(*j) for j in jobs]
        if rnd == 0:        # failures without end
            runs.append(endless(rng, os.path.join(base, "endless"), ck.n(1300, 12000)))
        done = W.pmap(lambda r: W.WorkerRun(site, r[0], r[1]), runs)
        for (root, files, want, texts), r in zip(runs, done):
            ck.case(sorted(texts.items()), nontrivial=len(want) > 1,
                    sample={"files": len(files), "tests": len(want), "status": r.rc, "outcomes": Counter(o for o, _ in want.values())})
            ck.count("tests", len(want))
            ck.count("runs_without_failure", not any(o in ("failed", "error") for o, _ in want.values()))
            for o, _ in want.values():
                ck.count(o)
            bad = judge(r, want)
            if bad:
                ck.violation(bad, {"files": texts, "expected": want, **r.brief()})
            ck.drop(root)
            ck.drop(root + ".run")


if __name__ == "__main__":
    Check("C05", "Generated modules of functions, methods, static and class methods, cases and coroutine or generator tests "
          f"whose bodies are drawn from {len(BODIES)} kinds with a known outcome (returning, failing, raising, exiting, "
          "closing or replacing the streams, writing unencodable text), 1-4 files per worker; over a thousand failures in one. Non-trivial: at least two "
          "tests; distinct by module texts.",
          assumptions=["tests do not end the process or raise KeyboardInterrupt", "class and generator test bodies that a call "
                       "cannot run count as errors"]).main(main, 20)
