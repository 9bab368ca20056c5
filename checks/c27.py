"""C27: complete command-line runs."""
import os
import random
import re
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import c26
import workers as W
from clirun import Cli, recording_python
from gen_project import Project
from vlib import Check, write_file


def calls(path):
    """What ran, as a multiset: (test, fails or not, arguments)."""
    return Counter(re.sub(r" at 0x[0-9a-f]+", "", repr(e[2:])) for e in W.read_log(path) if e[1] == "call")


def options(rng, runner):
    o = ["--runner", runner] if runner == "native" or rng.random() < 0.7 else []
    if rng.random() < 0.75:
        o += [rng.choice(["-n", "--numprocesses"]), rng.choice(["0", "1", "2", "2", "3", "4", "7", "auto", "logical"])]
    if rng.random() < 0.3:
        o += ["--maxprocesses", rng.choice(["0", "1", "2", "3", "9"])]
    if rng.random() < 0.5:
        o += ["--dist", rng.choice(["load", "loadscope", "loadfile", "worksteal", "no"])]
    return o


def additions(rng, log):
    """Environment additions: as options, and as what they amount to."""
    want, o = {}, []
    for _ in range(rng.choice([0, 1, 2, 4])):
        k, v = rng.choice(["RTV_E_A", "RTV_E_B", "RTV_E_c", "RTV_E_\u00fc"]), rng.choice(["", "1", "a=b", "=", "x y", " lead", "\u2603", "-n", "$HOME", "'q'", "a\nb", "--dist=no", "c" * 300])
        want[k] = v
        o += [rng.choice(["-e", "--env"]), f"{k}={v}"]
    if rng.random() < 0.2:
        o += ["-e", rng.choice(["NOTHING", "", "RTV_E_D", "é"])]        # only warned about
    if rng.random() < 0.5:
        o += ["--env", f"RTV_LOG={log}"]
    return o, want


def spread(rng, args, o):
    """Options before, between and after the paths."""
    pairs = [o[i:i + 2] for i in range(0, len(o), 2)]
    rng.shuffle(pairs)
    out = [[a] for a in args] + [[f"{a}={b}"] if a.startswith("--") and rng.random() < 0.3 else [a + b] if a == "-n" and rng.random() < 0.3 else [a, b] for a, b in pairs]
    if rng.random() < 0.5:
        rng.shuffle(out)
    return [x for p in out for x in p]


def one(job):
    cli, root, seed, runner = job
    rng = random.Random(seed)
    side = root + ".x"
    os.makedirs(os.path.join(side, "reports"))
    os.makedirs(root)
    p = Project(rng, root, native=runner == "native", log=True, failing=rng.choice([0, 0, 0, 0.1, 0.02]), paths=True)
    if not p.counts.get("imported_bases") and rng.random() < 0.6:       # parts of the tree with a project file of their own
        for d in {d for d, dotted in p.dirs if d and dotted is None and rng.random() < 0.4}:
            # (names configured at the top, of which pytest knows nothing in a project with settings of its own, are not looked at)
            text = rng.choice(["[project]\nname = 'x'\n", "[tool.other]\nx = 1\n", ""] + ["[tool.pytest.ini_options]\naddopts = ['-q']\n"] * (not p.config))
            write_file(os.path.join(root, d, "pyproject.toml"), text)
            p.files[os.path.join(d, "pyproject.toml")] = text
    args = p.args()
    argv = spread(rng, args, options(rng, runner))
    rec = {"root": root, "args": args, "argv": argv, "config": p.config, "files": p.files}
    ev1, ev2 = os.path.join(side, "events"), os.path.join(side, "events.py")
    env = {"RTV_LOG": ev1, **p.env(cli.site)}
    # what there is to run, and how it ends
    listing = cli.listing(args, root, env=p.env(cli.site))
    if listing.rc:
        return p, rec, "generator", listing, {}, Counter()
    if runner == "native":
        run = cli.rtest(argv, root, env=env)
        got = calls(ev1)
        plain = re.sub("\x1b\\[[0-9;]*m", "", run["out"])
        fails = sum(n for k, n in got.items() if "'FAILS'" in k)
        if "IMPORT_ERROR" in plain:
            return p, rec, "generator", listing, run, got
        bad = None
        m = re.findall(r"^=+ (PASSED|FAILED) (.*) in [\d.]+s =+$", plain, re.M)
        told = {what: int(n) for n, what in re.findall(r"(\d+) (\w+)", m[-1][1])} if m else {}
        if (run["rc"] == 0) != (fails == 0):
            bad = f"status {run['rc']} where {fails} tests failed"
        elif listing.nodes and (not m or m[-1][0] != ("FAILED" if fails else "PASSED")):
            bad = f"{fails} tests failed, and the summary says {m[-1:]}"
        elif listing.nodes and (told.get("passed", 0) != sum(got.values()) - fails or told.get("failed", 0) + told.get("error", 0) + told.get("errors", 0) != fails):
            bad = f"{sum(got.values())} bodies ran, {fails} failed, and the summary says {told}"
        elif not listing.unexpanded and listing.nodes and told.get("skipped", 0) + sum(got.values()) != len(listing.nodes):
            bad = f"{len(listing.nodes)} tests collected, {sum(got.values())} ran, {told}"
        elif not listing.nodes and got:
            bad = "nothing collected, but something ran"
        return p, rec, bad, listing, run, got
    # pytest, asked for the listed tests, is the oracle for what runs and how it ends
    os.makedirs(side + "/o")
    extra, added = additions(rng, ev1)
    py = cli.pytest_run([*listing.nodes], root, env={"RTV_LOG": ev2, **p.env(cli.site), **added}) if listing.nodes else {"rc": 0, "errors": [], "bad": [], "nodes": []}
    if py["errors"] or py["rc"] not in (0, 1):
        return p, rec, "generator", listing, {}, Counter()
    run = cli.rtest([*extra, *argv] if rng.random() < 0.5 else [*argv, *extra], root, env={**env, "RTV_LOG": "/dev/null/nowhere"} if f"RTV_LOG={ev1}" in extra else env)
    rec["extra"] = extra
    got, want = calls(ev1), calls(ev2)
    bad = None
    if got != want:
        bad = f"not run {list((want - got).items())[:4]}, run though not expected {list((got - want).items())[:4]}"
    elif (run["rc"] == 0) != (py["rc"] == 0):
        bad = f"status {run['rc']} where pytest ends with {py['rc']} ({py['bad'][:3]})"
    return p, rec, bad, listing, run, got


MALFORMED = [["-n", "x"], ["-n", "-1"], ["-n", ""], ["-n", "1.5"], ["-n", "2 "], ["-n", " 2"], ["-n", "0x2"], ["-n", "Auto"], ["-n", "99999999999999999999"], ["--numprocesses", "many"], ["-n"], ["-n", "１"], ["-n", "+-1"],
             ["--dist", "x"], ["--dist", ""], ["--dist", "Load"], ["--dist", "load "], ["--dist"], ["--dist", "loadgroup"], ["--dist", "each"], ["--maxprocesses", "x"], ["--maxprocesses", "-1"], ["--maxprocesses", ""], ["--maxprocesses", "auto"], ["--maxprocesses"], ["--maxprocesses", "1.0"],
             ["--maxprocesses", "99999999999999999999"], ["--runner", "x"], ["--runner", ""], ["--runner", "Native"], ["--runner"], ["--no-such-option"], ["-q"], ["-k", "x"], ["--collect-only=yes"], ["--collect"], ["-n", "2", "-n", "3"], ["--dist", "load", "--dist", "no"],
             ["--runner", "native", "--runner", "pytest"], ["--maxprocesses", "1", "--maxprocesses", "2"], ["-e"], ["--env"], ["-x"], ["--runner=native=x"], ["-n2", "--numprocesses=2"], ["--dist=load,no"]]
SOUND = {"test_a.py": "def test_a(): pass\n", "d/test_b.py": "def test_b(): pass\n"}


def malformed(job):
    cli, root, seed, o = job
    rng = random.Random(seed)
    side = root + ".x"
    os.makedirs(side)
    python, started = recording_python(side)
    for f, t in SOUND.items():
        write_file(os.path.join(root, f), t)
    paths = rng.choice([[], [], ["test_a.py"], ["."], ["d"]])
    base = [] if "--runner" in " ".join(o) else rng.choice([[], ["--runner", "native"], ["--runner", "pytest"]])
    extra = rng.choice([[], [], ["--collect-only"]])
    argv = rng.choice([[*paths, *base, *extra, *o], [*base, *extra, *paths, *o]] + ([[*o, *base]] if len(o) == 2 or "=" in o[0] else []))
    run = cli.rtest(argv, root, python=python)
    ran = open(started).read()
    bad = None
    if ran:
        bad = "malformed options, and something was executed"
    elif run["rc"] == 0:
        bad = "malformed options, and status 0"
    elif not run["err"].strip():
        bad = "malformed options are not complained about"
    elif run["rc"] < 0 or "panicked" in run["err"]:
        bad = f"crash: {run['rc']} {run['err'][-300:]}"
    return {"argv": argv, "files": SOUND}, bad, run


def nested(job):
    """Several project files, and which of the projects' tests fail: the status counts all of them."""
    cli, root, seed = job
    rng = random.Random(seed)
    side = root + ".x"
    os.makedirs(side)
    log = os.path.join(side, "events")
    dirs = rng.sample(["a", "b", "a/c", "d e", "z/y", "plain"], rng.choice([2, 3, 3, 4])) + [""] * (rng.random() < 0.5)
    want, files = Counter(), {}
    failing = set(rng.sample(dirs, rng.choice([0, 1, 1, 1, 2])))
    only_idle = rng.random() < 0.2         # nothing fails, and yet not everything is run
    if only_idle:
        failing = set()
    idle = {d for d in dirs if d not in failing and d not in ("", "a", "plain") and rng.random() < 0.5} if only_idle or rng.random() < 0.25 else set()     # run none of their tests (and have no projects in them)
    # ways to fail that pytest ends with other numbers for, or with none, and that keep it from running the rest
    ending = rng.choice(["", "", "raise RuntimeError('module')", "import no_such_module", "def broken(", "import pytest; pytest.exit('enough')"])
    inside = rng.choice(["import os, signal; os.kill(os.getpid(), signal.SIGKILL)", "import os; os._exit(6)", "import pytest; pytest.exit('enough', 3)",
                         "raise KeyboardInterrupt"]) if rng.random() < 0.25 else None
    if ending == "def broken(":         # found by collection, before anything runs
        ending = "from rtv_log import nothing_like_this"
    if rng.random() < 0.25:     # killed here, an ordinary failure there
        failing, ending, inside = set(dirs[:2]), "", "import os, signal; os.kill(os.getpid(), signal.SIGKILL)"
    cut = failing and (ending or inside)
    ends = {d: inside if k == 0 or not cut else rng.choice([inside, None]) for k, d in enumerate(dirs)}
    for d in dirs:
        if d != "plain":
            files[os.path.join(d, "pyproject.toml")] = "[tool.pytest.ini_options]\naddopts = ['-k', 'no_such_test']\n" if d in idle else rng.choice(["", "[project]\nname = 'x'\n"])
        n = rng.choice([1, 1, 2, 5])
        bad = rng.randrange(n) if d in failing else -1
        text = "from rtv_log import ev\n"
        for i in range(n):
            uid = f"{d}#{i}"
            want[uid] += d not in idle
            text += f"def test_{i}():\n    ev('call', {uid!r})\n" + (f"    {ends[d] or rng.choice(['assert False', 'raise OSError', 'exit(0)', '1 / 0'])}\n" if i == bad else "")
        if bad >= 0 and ending:
            text += ending + "\n"
        files[os.path.join(d, f"test_{len(files)}.py")] = text
    for f, t in files.items():
        write_file(os.path.join(root, f), t)
    o = [] if rng.random() < 0.5 else options(rng, "pytest")
    run = cli.rtest(o, root, env={"RTV_LOG": log})
    got = Counter(e[2] for e in W.read_log(log) if e[1] == "call")
    bad = None
    if got - want or (got != want and not cut):
        bad = f"not run {list((want - got).items())[:4]}, run though not expected {list((got - want).items())[:4]}"
    elif (run["rc"] == 0) != (not failing | idle):
        bad = f"status {run['rc']} where tests of {sorted(failing)} fail and those of {sorted(idle)} are not run"
    return {"argv": o, "files": files, "cut": bool(cut)}, bad, run


D = "import pytest\n@pytest.mark.parametrize('x', %s)\ndef test_d(x): pass\n"
KNOWN = [("duplicate-ids", {"test_d.py": D % "['a', 'a', 'b']"}), ("constant-ids", {"test_d.py": "DATA = ['p', 'q']\n" + D % "DATA"})]


def probes(ck, cli, base):
    """Tests that the pytest runner cannot address, since they are listed under other ids than pytest's."""
    for sig, files in KNOWN:
        root = os.path.join(base, sig)
        for f, t in files.items():
            write_file(os.path.join(root, f), t)
        r = cli.rtest(["--runner", "pytest"], root)
        ck.count("known_probes")
        if r["rc"]:
            ck.violation(f"{sig}: status {r['rc']}: passing tests are not run: {r['out'][-300:]} {r['err'][-300:]}", {"files": files, **r},
                         sig=sig if "not found: " in r["out"] + r["err"] else None)
    for sig, files, listed, run in c26.KNOWN:
        if sig.endswith("-ids"):        # other names, but the same tests
            continue
        root = os.path.join(base, "native-" + sig)
        for f, t in files.items():
            write_file(os.path.join(root, f), t)
        r = cli.rtest(["--runner", "native"], root)
        ck.count("known_probes")
        if f" {len(listed)} passed in" not in r["out"]:
            ck.violation(f"{sig}: {len(listed)} tests are listed: {r['out'][-200:]}", {"files": files, **r},
                         sig=sig if f" {len(run)} passed in" in r["out"] and r["rc"] == 0 else None)


def main(ck):
    cli, base, rng = Cli(ck), ck.scratch(), ck.rng
    probes(ck, cli, base)
    for rnd in ck.rounds(ck.n(4, 20), ck.n(4, 300)):
        jobs = [(cli, os.path.join(base, f"p{rnd}-{k}"), rng.random(), "native" if k % 2 else "pytest") for k in range(32)]
        for (_, root, seed, runner), (p, rec, bad, listing, run, got) in zip(jobs, W.pmap(one, jobs)):
            if bad == "generator":
                ck.count("generator")
                ck.case(seed, nontrivial=False)
                bad = None
            else:
                ck.case((p.files, rec["argv"]), nontrivial=bool(got), sample={"argv": rec["argv"], "config": p.config, "ran": list(got)[:4], "status": run["rc"]})
                ck.count(f"runs_{runner}")
                ck.count("bodies", sum(got.values()))
                ck.count("runs_with_failures", any("FAILS" in k for k in got))
                ck.count("project_files", sum(f.endswith("pyproject.toml") for f in p.files))
            if bad:
                ck.violation(f"{runner} {rec['argv']} {p.config}: {bad}", {**rec, "listing": listing.brief(), "run": {k: str(v)[-2500:] for k, v in run.items()}})
            for d in [root, *p.paths]:
                ck.drop(d)
            ck.drop(root + ".x")
        jobs = [(cli, os.path.join(base, f"n{rnd}-{k}"), rng.random()) for k in range(12)]
        for (_, root, seed), (rec, bad, run) in zip(jobs, W.pmap(nested, jobs)):
            ck.case(("nested", rec["files"], rec["argv"]))
            ck.count("several_projects")
            ck.count("broken_off", rec["cut"])
            if bad:
                ck.violation(f"several projects, {rec['argv']}: {bad}", {**rec, **{k: str(v)[-2500:] for k, v in run.items()}})
            ck.drop(root)
            ck.drop(root + ".x")
        jobs = [(cli, os.path.join(base, f"m{rnd}-{k}"), rng.random(), o) for k, o in enumerate(MALFORMED)]
        for (_, root, seed, o), (rec, bad, run) in zip(jobs, W.pmap(malformed, jobs)):
            ck.case(("malformed", rec["argv"]))
            ck.count("malformed")
            if bad:
                ck.violation(f"{rec['argv']}: {bad}", {**rec, **{k: str(v)[-1500:] for k, v in run.items()}})
            ck.drop(root)
            ck.drop(root + ".x")


if __name__ == "__main__":
    Check("C27", "Random projects whose bodies log themselves, some failing, some with nested project files, run completely with either runner "
          "under random worker counts (also 0), distribution modes, caps and path arguments (also overlapping). Native: bodies run, listing, "
          "summary and status agree. pytest runner: bodies run and status are those of pytest itself given the listed tests. Several projects side by side and nested, some "
          "with a failing test. Malformed or "
          "repeated options, with a recording stand-in. Non-trivial: something ran, or options malformed; distinct by files and arguments.",
          assumptions=["the supported subset is the generator's (see DESIGN.md)",
                       "the parser is the stand-in for ruff's, built on CPython's grammar"]).main(main, 60)
