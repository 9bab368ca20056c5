"""C03: native results do not depend on the worker count (metamorphic monitor: one suite, many counts and schedules)."""
import os
import random
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import scripted as S
import workers as W
from bodies import BODIES, PASSING
from c05 import make_file
from vlib import Check, write_file

TESTLIKE = ["", "", "a/", "a/b/", "b/", "tests/", "json/"]


def prepare_many(rng, root, count):
    files, texts, want = [], {}, {}
    for i in range(count):
        rel = rng.choice(["", "a/", "b/"]) + f"test_{i}.py"
        bad = rng.random() < 0.1
        texts[rel] = f"from rtv_log import ev\ndef test_it():\n    ev('run', {rel + '::test_it'!r})\n    assert {not bad}\n"
        want[f"{rel}::test_it"] = ("failed", "AssertionError") if bad else ("passed", None)
        write_file(os.path.join(root, rel), texts[rel])
        files.append(rel)
    return files, texts, want


def prepare(rng, root):
    """A suite of files whose tests are independent of each other: {file: text}, expected {nodeid: (outcome, type)}."""
    files, texts, want = [], {}, {}
    quiet = rng.random() < 0.25
    for i in range(rng.choice([1, 2, 3, 5, 8, 12])):
        rel = rng.choice(TESTLIKE) + rng.choice(["test_x.py", "test_json.py", f"test_{i}.py", f"check-{i}.py", f"{i}.py"])
        if rel in texts:
            continue
        kind = rng.random()
        if kind < 0.08 and not quiet:
            text, w = rng.choice([("raise ValueError('at import')\n", "ValueError"), ("import no_such_module_rtv\n", "ModuleNotFoundError"),
                                  ("def broken(:\n", "SyntaxError"), ("import sys\nsys.exit(0)\n", "SystemExit")])
            w = {f"{rel}::IMPORT_ERROR": ("error", w)}
        elif kind < 0.16:
            text, w = "x = 1\n", {}
        elif kind < 0.3:        # state of the module itself, which no other file may see
            text = f"from rtv_log import ev\nseen = []\nNAME = {rel!r}\n"
            w = {}
            for j in range(rng.choice([2, 5])):
                text += (f"def test_{j}():\n    ev('run', {rel + f'::test_{j}'!r})\n    seen.append({j})\n"
                         f"    assert seen == list(range({j + 1})) and NAME == {rel!r}\n")
                w[f"{rel}::test_{j}"] = ("passed", None)
        else:
            pool = list(PASSING if quiet else BODIES)
            rng.shuffle(pool)
            text, w = make_file(rng, rel, pool[:rng.choice([1, 2, 4, 9])], quiet)
        if kind >= 0.3 and rng.random() < 0.5 and "/" in rel:       # a module beside the file, unlike any other's
            helper = "rtv_c03_" + os.path.dirname(rel).replace("/", "_")
            write_file(os.path.join(root, os.path.dirname(rel), helper + ".py"), f"WHERE = {os.path.dirname(rel)!r}\n")
            text = text + f"\nimport {helper}\nassert {helper}.WHERE == {os.path.dirname(rel)!r}\n"
        texts[rel] = text
        want.update(w)
        write_file(os.path.join(root, rel), text)
        files.append(rel)
    rng.shuffle(files)
    return files, texts, want


def observe(exe, site, base, sd, files, n, delays):
    d = os.path.join(sd, f"n{n}-{len(delays)}")
    os.makedirs(os.path.join(d, "reports"))
    os.symlink(os.path.join(sd, "suite"), os.path.join(d, "root"))
    log = os.path.join(d, "events")
    r = S.Native(exe, d, files, {}, n, python=W.copying_python(d),
                 env={"PYTHONPATH": f"{site}:{W.RUNTIME}", "RTV_LOG": log, "RTV_REPORTS": os.path.join(d, "reports"),
                      "RTV_DELAYS": delays, "PYTHONWARNINGS": "ignore"})
    r.reports = W.read_reports(os.path.join(d, "reports"))
    r.events = W.read_log(log)
    return r


def view(r):
    rs = [x for _, rep in r.reports for x in rep]
    return {"status": r.code, "summary": r.summary(),
            "results": sorted((x["nodeid"], x["outcome"], str(x["error_type"]), x["stdout"], x["stderr"]) for x in rs),
            "ran": sorted(e[2] for e in r.events if e[1] == "run")}


def judge(v, want):
    ids = Counter(x[0] for x in v["results"])
    if ids != Counter(dict.fromkeys(want, 1)):
        return f"results missing {list((Counter(list(want)) - ids))[:3]} or in excess {list((ids - Counter(list(want))))[:3]}"
    for nid, outcome, et, *_ in v["results"]:
        if outcome != want[nid][0]:
            return f"{nid!r} is {outcome} instead of {want[nid][0]}"
    counts = {k: 0 for k in ("passed", "failed", "error", "skipped")}
    for o, _ in want.values():
        counts[o] += 1
    if not want:
        return None
    bad = counts["failed"] + counts["error"] > 0
    if v["summary"] is None or v["summary"][1] != counts:
        return f"summary {v['summary']} instead of {counts}"
    if v["status"] != (1 if bad else 0):
        return f"exit status {v['status']}"
    if any(c > 1 for c in Counter(v["ran"]).values()):
        return "a test ran twice"
    return None


def one(job):
    exe, site, base, tag, seed, wide = job
    rng = random.Random(seed)
    sd = os.path.join(base, tag)
    many = tag == "r1-0" or wide and rng.random() < 0.01
    if many:        # more workers than any machine has processors
        files, texts, want = prepare_many(rng, os.path.join(sd, "suite"), 135)
        counts = [2, rng.choice([135, 134, 200])]
    else:
        files, texts, want = prepare(rng, os.path.join(sd, "suite"))
        counts = [1] + rng.sample([2, 3, 4, len(files), len(files) + 3, 40], 4 if wide else 2)
    seen = []
    for n in dict.fromkeys(counts):
        delays = rng.choice(["", "0 0.03", "0.02 0 0.05"])
        r = observe(exe, site, base, sd, files, n, delays)
        seen.append((n, len(r.reports), view(r), r.err[-1500:]))
    return sd, files, texts, want, seen


def main(ck):
    exe, site, base, rng = build.core(), build.python_site(), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(2, 8), ck.n(5, 120)):
        jobs = [(exe, site, base, f"r{rnd}-{k}", rng.random(), not ck.quick) for k in range(16)]
        for sd, files, texts, want, seen in W.pmap(one, jobs):
            first = seen[0][2]
            for n, launched, v, err in seen:
                ck.case((sorted(texts.items()), files, n), nontrivial=launched > 1,
                        sample={"files": len(files), "workers": launched, "summary": v["summary"], "tests": len(want)})
                ck.count(f"runs_with_{min(launched, 9)}_workers")
                ck.count("tests", len(want))
                bad = judge(v, want)
                if bad is None and v != first:
                    diff = [k for k in v if v[k] != first[k]]
                    bad = f"{diff} differ from those of the run with {seen[0][0]} worker(s)"
                if bad:
                    ck.violation(f"with {n} workers: {bad}"[:1200], {"n": n, "files": files, "texts": texts, "expected": want,
                                 "seen": v, "one_worker": first, "stderr": err})
            ck.drop(sd)


if __name__ == "__main__":
    Check("C03", "Generated suites of 1-12 files of independent tests (all kinds of bodies of C05, module state, files that do not "
          "import, equal base names, names of installed modules) run by the real worker through the native runner with 1 and "
          "several other worker counts up to 40 (one suite of 135 files: up to 200) and with injected start delays; results, bodies run, summary and status compared "
          "with each other and with the bodies' known outcomes. Non-trivial: at least two workers; distinct by suite and count.",
          assumptions=["tests of a suite share no state (files, environment, modules of equal name)"]).main(main, 20)
