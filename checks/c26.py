"""C26: what is listed is what a native run executes."""
import json
import os
import random
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import layouts
import workers as W
from clirun import Cli
from gen_project import Project, base_of
from vlib import Check, write_file


def one(job):
    cli, root, seed = job
    rng = random.Random(seed)
    side = root + ".x"
    os.makedirs(os.path.join(side, "reports"))
    os.makedirs(root)
    p = Project(rng, root, native=True, paths=True)
    args = p.args()
    n = rng.choice(["1", "2", "3", "5", "8", "auto"])
    log = os.path.join(side, "events")
    env = {"RTV_LOG": log, "RTV_REPORTS": os.path.join(side, "reports"), **p.env(cli.site)}
    if rng.random() < 0.3:
        env["RTV_DELAYS"] = " ".join(str(rng.choice([0, 0, 0.1, 0.2])) for _ in range(3))
    listing = cli.listing([*args, "--runner", "native"], root, env=p.env(cli.site))
    run = cli.rtest([*args, "--runner", "native", "-n", n], root, env=env, python=W.copying_python(side))
    reports = W.read_reports(os.path.join(side, "reports"))
    got = [r for _, rs in reports for r in rs]
    events = [e for e in W.read_log(log) if e[1] == "call"]
    rec = {"root": root, "args": args, "n": n, "config": p.config, "files": p.files}
    bad = judge(p, listing, run, got, events)
    failing = [r for r in got if r["nodeid"].endswith("::IMPORT_ERROR")]
    if bad and failing:
        # a project that is no sound program (circular imports, bases in no consistent order) says nothing
        py = cli.pytest_collect([r["nodeid"].split("::")[0] for r in failing], root, env={"RTV_LOG": log + ".py", **p.env(cli.site)})
        if len(py["errors"]) == len(failing) and all(r["error_type"] in e[1] for r, e in zip(failing, py["errors"])):
            bad = "generator"
    return p, rec, listing, run, reports, got, bad


def judge(p, listing, run, got, events):
    if listing.rc or listing.errors:
        return f"the listing failed: {listing.rc} {listing.error_nodes} {listing.err[-300:]}"
    ran = [base_of(r["nodeid"]) if base_of(r["nodeid"]) in listing.unexpanded else r["nodeid"] for r in got]
    every = Counter(r["nodeid"] for r in got)
    if max(every.values(), default=1) > 1:
        return f"reported more than once: {[k for k, v in every.items() if v > 1][:5]}"
    lost, new = set(listing.nodes) - set(ran), set(ran) - set(listing.nodes)
    if lost or new:
        return f"listed but not run {sorted(lost)[:6]}, run but not listed {sorted(new)[:6]}"
    if listing.unexpanded and not p.counts.get("dynamic_decorators"):
        return f"cases not expanded: {sorted(listing.unexpanded)[:4]}"
    bad = [(r["nodeid"], r["outcome"], r.get("error")) for r in got if r["outcome"] not in ("passed", "skipped")]
    if bad:
        return f"failed: {bad[:3]}"
    if run["rc"] != 0:
        return f"status {run['rc']}"
    # no body ran twice, and each test that passed ran its body
    calls = sum(r["outcome"] == "passed" for r in got)
    if len(events) != calls:
        return f"{calls} tests passed, {len(events)} bodies ran"
    return None


# Projects on which listing and native run are known to differ (see known_findings.txt): what is listed, what is run.
D = "import pytest\n@pytest.mark.parametrize('x', %s)\ndef test_d(x): pass\n"
KNOWN = [
    ("constant-ids", {"test_d.py": "DATA = ['p', 'q']\n" + D % "DATA"}, ["test_d[DATA[p]]", "test_d[DATA[q]]"], ["test_d[p]", "test_d[q]"]),
    ("int-enum-ids", {"test_d.py": "from enum import IntEnum\nclass N(IntEnum):\n    A = 1\n" + D % "[N.A]"}, ["test_d[N.A]"], ["test_d[1]"]),
    ("local-base", {"test_d.py": "class Base:\n    def test_x(self): pass\nclass TestD(Base):\n    def test_y(self): pass\n"},
     ["TestD::test_y"], ["TestD::test_x", "TestD::test_y"]),
    ("imported-tests", {"h.py": "class TestH:\n    def test_x(self): pass\ndef test_f(): pass\n", "test_d.py": "from h import TestH, test_f\nclass TestD(TestH): pass\n"},
     ["TestD::test_x"], ["TestD::test_x", "TestH::test_x", "test_f"]),
    ("assigned-tests", {"test_d.py": "def test_a(): pass\ntest_b = test_a\ntest_c = lambda: None\nclass TestA:\n    def test_x(self): pass\nTestB = TestA\n"},
     ["TestA::test_x", "test_a"], ["TestA::test_x", "TestB::test_x", "test_a", "test_b", "test_c"]),
]


def probes(ck, cli, base):
    for sig, files, listed, run in KNOWN:
        root = os.path.join(base, sig)
        for f, t in files.items():
            write_file(os.path.join(root, f), t)
        side = root + ".x"
        os.makedirs(os.path.join(side, "reports"))
        listing = cli.listing(["--runner", "native"], root)
        cli.rtest(["--runner", "native"], root, env={"RTV_REPORTS": os.path.join(side, "reports")}, python=W.copying_python(side))
        got = [sorted(listing.nodes), sorted(r["nodeid"] for _, rs in W.read_reports(os.path.join(side, "reports")) for r in rs)]
        ck.case(sig)
        ck.count("known_probes")
        if got[0] != got[1]:
            ck.violation(f"{sig}: listed {got[0]}, run {got[1]}", {"files": files, "listed": got[0], "run": got[1]},
                         sig=sig if got == [["test_d.py::" + n for n in sorted(w)] for w in (listed, run)] else None)


def fixed(ck, cli, base):
    """The hand-written projects whose imports the worker can do: what is listed is what is run."""
    def one(name):
        root = os.path.join(base, "layouts", name)
        layouts.write(layouts.LAYOUTS[name], root)
        side = root + ".x"
        os.makedirs(os.path.join(side, "reports"))
        listing = cli.listing(["--runner", "native"], root)
        run = cli.rtest(["--runner", "native", "-n", "2"], root, env={"RTV_REPORTS": os.path.join(side, "reports")}, python=W.copying_python(side))
        return name, listing, run, [r for _, rs in W.read_reports(os.path.join(side, "reports")) for r in rs]

    for name, listing, run, got in W.pmap(one, [n for n in layouts.LAYOUTS if layouts.native(n)]):
        ck.case(("layout", name), nontrivial=bool(got))
        ck.count("layouts")
        ran = sorted(base_of(r["nodeid"]) if base_of(r["nodeid"]) in listing.unexpanded else r["nodeid"] for r in got)
        bad = None
        if len(set(r["nodeid"] for r in got)) < len(got):
            bad = f"run twice: {sorted(r['nodeid'] for r in got)}"
        elif sorted(set(ran)) != sorted(listing.nodes):
            bad = f"listed {listing.nodes}, run {ran}"
        elif listing.rc or run["rc"]:
            bad = f"status {listing.rc} of the listing, {run['rc']} of the run, of tests that pass"
        if bad:
            ck.violation(f"layout {name}: {bad}", {"files": layouts.LAYOUTS[name], "listed": listing.nodes, "ran": got, "out": run["out"][-1500:], "err": run["err"][-1500:]})


def main(ck):
    cli, base, rng = Cli(ck), ck.scratch(), ck.rng
    probes(ck, cli, base)
    fixed(ck, cli, base)
    for rnd in ck.rounds(ck.n(5, 20), ck.n(8, 300)):
        jobs = [(cli, os.path.join(base, f"p{rnd}-{k}"), rng.random()) for k in range(40)]
        for (_, root, seed), (p, rec, listing, run, reports, got, bad) in zip(jobs, W.pmap(one, jobs)):
            ck.case((p.files, rec["args"], rec["n"]), nontrivial=bool(got),
                    sample={"args": rec["args"], "n": rec["n"], "config": p.config, "run": [r["nodeid"] for r in got][:6]})
            ck.count("tests", len(got))
            ck.count("workers", len(reports))
            ck.count("skipped", sum(r["outcome"] == "skipped" for r in got))
            ck.count("unexpanded", len(listing.unexpanded))
            ck.count("with_cases", sum("[" in r["nodeid"] for r in got))
            for k, v in p.counts.items():
                ck.count(k, v)
            if bad == "generator":
                ck.count("unsound_projects")
            elif bad:
                ck.violation(f"{rec['args']} -n {rec['n']} {p.config}: {bad}", {**rec, "listing": listing.brief(), "run": {k: run[k][-2500:] if isinstance(run[k], str) else run[k] for k in run}})
            for d in [root, *p.paths]:
                ck.drop(d)
            ck.drop(root + ".x")


if __name__ == "__main__":
    Check("C26", "Random projects of the supported subset with rtest's and pytest's case decorators, listed by --collect-only and run natively by "
          "1-8 workers (delayed at random), whose reports are kept; identifiers and numbers of executed bodies are compared. Non-trivial: "
          "something runs; distinct by files, arguments and worker count.",
          assumptions=["the supported subset is the generator's (see DESIGN.md)",
                       "the parser is the stand-in for ruff's, built on CPython's grammar"]).main(main, 100)
