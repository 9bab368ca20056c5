"""C28: run_tests, called from Python."""
import json
import os
import random
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import workers as W
from c27 import calls
from clirun import Cli
from gen_project import Project
from vlib import PY, Check, write_file, write_script

FLAGS = ["-v", "-q", "-x", "--tb=no", "-p", "--color=yes", "-rA", "--maxfail=3", "-kx", "--co", "-s", "--strict-markers", "--", "-", "-e", "-n", "--dist=no", "-m", "--deselect=a b", "-W=ignore::X",
         "--junitxml=/x/y.xml", "-c/no/such.ini", "--ignore=a/b", "-o=k=v", "--k=v=w", "-", "--basetemp=./t", "-p=no:cacheprovider", "-é", "-k a or b"]
REAL = ["-q", "-v", "--tb=no", "--color=no", "-rA", "-s", "--no-header", "-vv"]


def recorder(directory, ending):
    """A stand-in for sys.executable that records how it was started and ends as it is told."""
    log, path = os.path.join(directory, "started"), os.path.join(directory, "recpython")
    write_script(path, f"#!{PY} -S\nimport json, os, sys\n"
                 f"with open({log!r}, 'a') as f:\n    f.write(json.dumps([sys.argv[1:], os.getcwd()]) + '\\n')\n"
                 + (f"os.kill(os.getpid(), {-ending})\n" if ending < 0 else f"sys.exit({ending})\n"))
    return path, log


def spelled(rng, root, cwd):
    """A directory as an argument, None if it is the current one and left out."""
    rel = os.path.relpath(root, cwd)
    return rng.choice([root, root + "/", rel, rel + "/", os.path.join(".", rel), os.path.join(rel, ".."), root + "//."][:5]) if root != cwd or rng.random() < 0.6 else None


def one(job):
    cli, root, seed, mode = job
    rng = random.Random(seed)
    side = root + ".x"
    os.makedirs(os.path.join(side, "deep", "er"))
    os.makedirs(root)
    p = Project(rng, root, native=False, log=True, failing=rng.choice([0, 0, 0.1, 0.02]))
    cwd = rng.choice([root, root, side, os.path.join(side, "deep", "er"), os.path.dirname(root), os.path.join(root, rng.choice(p.dirs)[0])])
    start = spelled(rng, root, cwd)
    paths = p.args()
    if start is None and paths and os.path.isdir(os.path.join(root, paths[0])):
        start = "."                     # the first directory is the one to work in
    flags = rng.choices(REAL if mode == "real" else FLAGS, k=rng.choice([0, 0, 1, 2, 4]))
    if flags and rng.random() < 0.2:
        flags.append(flags[-1])
    for flag in flags:
        if "/" not in flag and rng.random() < 0.15 and not os.path.lexists(os.path.join(cwd, flag)):      # that is also the name of a directory
            os.mkdir(os.path.join(cwd, flag))
    rest = paths + flags
    if rng.random() < 0.5:
        rng.shuffle(rest)
        if start is None and rest and os.path.isdir(os.path.join(root, rest[0])):
            start = "."
    args = ([start] if start is not None else []) + rest
    paths = [a for a in rest if not a.startswith("-")]
    argv = args or rng.choice([[], ["()"], ["(None)"]])
    rec = {"root": root, "cwd": cwd, "args": argv, "config": p.config, "files": p.files, "mode": mode}
    listing = cli.listing(paths, root)
    if listing.rc or listing.errors:
        return rec, "generator", {}, 0
    broken = missing = None
    if mode == "broken":
        name = next((n for n in (p.file_name() for _ in range(20)) if n and not os.path.exists(os.path.join(root, n))), None)
        if name is None or paths:
            return rec, "generator", {}, 0
        broken = os.path.join((p.config.get("testpaths") or ["."])[0], name)
        if not os.path.isdir(os.path.dirname(os.path.join(root, broken))):
            return rec, "generator", {}, 0
        write_file(os.path.join(root, broken), "def test_a(:\n")
    if mode == "missing":
        missing = rng.choice(["gone.py", "gone/", "no/such/test_x.py", "é.py"])
        argv = args + [missing] if args else [missing]
        rec["args"] = argv
    ev1, ev2 = os.path.join(side, "events"), os.path.join(side, "events.py")
    if mode == "real":
        py = cli.pytest_run([*listing.nodes], root, env={"RTV_LOG": ev2}) if listing.nodes else {"rc": 0, "errors": [], "bad": []}
        if py["errors"] or py["rc"] not in (0, 1):
            return rec, "generator", {}, 0
        run = cli.call("api", argv, cwd, env={"RTV_LOG": ev1})
        got, want = calls(ev1), calls(ev2)
        bad = None
        if got != want:
            bad = f"not run {list((want - got).items())[:4]}, run though not expected {list((got - want).items())[:4]}"
        elif run["rc"] != py["rc"]:
            bad = f"returned {run['rc']} where pytest ends with {py['rc']}"
        return rec, bad, run, sum(got.values())
    ending = rng.choice([0, 0, 1, 2, 5, 7, 255, -9, -15])
    python, log = recorder(side, ending)
    run = cli.call("api", argv, cwd, python=python)
    started = [json.loads(line) for line in open(log)] if os.path.exists(log) else []
    rec.update(started=started, ending=ending, nodes=listing.nodes, flags=flags)
    bad = None
    if "panicked" in run["err"] or "Traceback" in run["err"] or run["rc"] < 0:
        bad = f"crashed: {run['rc']} {run['err'][-300:]}"
    elif mode == "missing":
        bad = f"status {run['rc']} and {len(started)} processes though {missing!r} does not exist" if run["rc"] != 4 or started else None
    elif broken:
        bad = f"returned {run['rc']} after {len(started)} processes though {broken} cannot be collected" if run["rc"] != 1 or started else None
    elif not listing.nodes:
        bad = f"returned {run['rc']} after {len(started)} processes though nothing is collected" if run["rc"] or started else None
        if not bad and not re.search("No tests (found|collected)", run["out"]):
            bad = "nothing collected, and the run does not say so"
    elif len(started) != 1:
        bad = f"{len(started)} processes"
    else:
        argv1, where = started[0]
        if argv1[:2] != ["-m", "pytest"] or argv1.count("--rootdir") != 1:
            bad = f"started as {argv1[:6]}"
        else:
            i = argv1.index("--rootdir")
            given = argv1[2:i] + argv1[i + 2:]
            nodes = [a for a in given if "::" in a and a not in flags]
            others = [a for a in given if a not in nodes]
            if nodes != listing.nodes:
                bad = f"given {nodes[:5]}, collected {listing.nodes[:5]} ({len(nodes)} and {len(listing.nodes)})"
            elif others != [f for f in rest if f.startswith("-")]:
                bad = f"flags {[f for f in rest if f.startswith('-')]} passed on as {others}"
            elif os.path.realpath(where) != os.path.realpath(root) or os.path.realpath(os.path.join(where, argv1[i + 1])) != os.path.realpath(root):
                bad = f"runs in {where} with {argv1[i + 1]}, not in {root}"
            elif ending >= 0 and run["rc"] != ending or ending < 0 and run["rc"] == 0:
                bad = f"returned {run['rc']} where the process ended with {ending}"
    return rec, bad, run, len(started)


def again(job):
    """Several calls in one process: each as if it were the only one."""
    cli, root, seed, mode = job
    rng = random.Random(seed)
    side = root + ".x"
    os.makedirs(side)
    os.makedirs(root)
    p = Project(rng, root, native=False, log=True)
    cwd = first = rng.choice([root, side, os.path.dirname(root)])
    ending = rng.choice([0, 1, 5, -9])
    python, log = recorder(side, ending)
    steps, want, undo = [], [], []
    rec = {"root": root, "cwd": cwd, "config": p.config, "files": dict(p.files), "mode": mode, "args": steps}
    for k in range(rng.choice([2, 3, 4])):
        if k and rng.random() < 0.6:
            path = os.path.join(root, rng.choice(p.tests)[0])
            if rng.random() < 0.4 and os.path.lexists(path):
                steps.append(["unlink", path])
                undo.append((path, None if os.path.islink(path) else open(path, newline="").read()))
                if undo[-1][1] is None:
                    return rec, "generator", {}, 0
                os.unlink(path)
            else:
                path = os.path.join(os.path.dirname(path), f"test_more{k}.py")
                if not p.test_file(os.path.basename(path)) or os.path.lexists(path):
                    continue
                text = rng.choice(["def test_more(): pass\n", "def test_more(): pass\nclass TestMore:\n    def test_it(self): pass\n", "def test_(:\n", "", "x = 1\n"])
                steps.append(["write", path, text])
                undo.append((path, None))
                write_file(path, text)
        if k and rng.random() < 0.3:
            cwd = rng.choice([root, side])
            steps.append(["chdir", cwd])
        start = spelled(rng, root, cwd)
        paths = [a for a in p.args() if os.path.exists(os.path.join(root, a))]
        if start is None and paths and os.path.isdir(os.path.join(root, paths[0])):
            start = "."
        flags = rng.choices(FLAGS, k=rng.choice([0, 1, 3]))
        steps.append([rng.choice(["call", "call", "thread"]), ([start] if start is not None else []) + paths + flags])
        listing = cli.listing(paths, root)
        want.append((listing, flags))
    for path, text in reversed(undo):
        if text is None:
            os.path.lexists(path) and os.unlink(path)
        else:
            with open(path, "w", newline="") as f:
                f.write(text)
    run = cli.call("apis", steps, first, python=python)
    started = [json.loads(line) for line in open(log)] if os.path.exists(log) else []
    rec.update(started=started, ending=ending)
    seen = run.get("pytest")
    if seen is None or len(seen) != len(want):
        return rec, f"the calls do not come back: {run['rc']} {run['err'][-300:]}", run, 0
    n = 0
    for k, ((listing, flags), (code, changed)) in enumerate(zip(want, seen)):
        if changed:
            return rec, f"call {k + 1} changed the caller's {changed}", run, n
        if listing.errors or not listing.nodes:
            if code != (1 if listing.errors else 0):
                return rec, f"call {k + 1} returned {code} with {listing.errors} errors and {len(listing.nodes)} tests", run, n
            continue
        if n >= len(started):
            return rec, f"call {k + 1} started nothing", run, n
        argv1, where = started[n]
        n += 1
        if argv1[:2] != ["-m", "pytest"] or "--rootdir" not in argv1:
            return rec, f"call {k + 1} started {argv1[:6]}", run, n
        i = argv1.index("--rootdir")
        given = argv1[2:i] + argv1[i + 2:]
        if [a for a in given if "::" in a and a not in flags] != listing.nodes or [a for a in given if "::" not in a or a in flags] != flags:
            return rec, f"call {k + 1} was given {given[:8]}, expected {listing.nodes[:4]} and {flags}", run, n
        if os.path.realpath(where) != os.path.realpath(root) or ending >= 0 and code != ending or ending < 0 and not code:
            return rec, f"call {k + 1} ran in {where} and returned {code}, where the process ended with {ending}", run, n
    if n != len(started):
        return rec, f"{len(started)} processes for {n} calls with tests", run, n
    return rec, None, run, n


def main(ck):
    cli, base, rng = Cli(ck), ck.scratch(), ck.rng
    modes = ["real"] * 10 + ["recorded"] * 14 + ["broken"] * 4 + ["missing"] * 4 + ["again"] * 6
    for rnd in ck.rounds(ck.n(14, 20), ck.n(5, 300)):
        jobs = [(cli, os.path.join(base, f"p{rnd}-{k}"), rng.random(), mode) for k, mode in enumerate(modes)]
        for (_, root, seed, mode), (rec, bad, run, n) in zip(jobs, W.pmap(lambda j: (again if j[3] == "again" else one)(j), jobs)):
            if bad == "generator":
                ck.count("generator")
                ck.case(seed, nontrivial=False)
                bad = None
            else:
                ck.case((mode, rec["files"], rec["args"], os.path.relpath(rec["cwd"], root)), sample={"args": rec["args"], "cwd": os.path.relpath(rec["cwd"], root), "mode": mode, "returned": run["rc"]})
                ck.count(mode)
                ck.count("bodies" if mode == "real" else "processes", n)
            if bad:
                ck.violation(f"{mode} {rec['args']} from {os.path.relpath(rec['cwd'], root)}: {bad}", {**rec, "run": {k: str(v)[-2000:] for k, v in run.items()}})
            ck.drop(root)
            ck.drop(root + ".x")


if __name__ == "__main__":
    Check("C28", "run_tests called with nothing, None, directories spelled absolutely and relatively from various current directories, "
          "paths and flags in any order, on random projects (some with broken files, some with missing paths), also several times in one process with changes to the project and of the current directory in between. What runs and the value "
          "returned are compared with pytest given the listed tests; arguments and directory with what a stand-in recorded. Distinct by files, arguments and directory.",
          assumptions=["flags carry their values (-kx, --opt=value)", "the parser is the stand-in for ruff's"]).main(main, 60)
