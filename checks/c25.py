"""C25: collecting only observes."""
import hashlib
import os
import random
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import workers as W
from clirun import Cli, recording_python
from gen_project import Project
from vlib import Check, write_file

BROKEN = ["def test_a(:\n", b"\xff\xfe", "class A(B): pass\nclass B(A): pass\nclass TestA(A):\n    def test_x(self): pass\n", "x = (\n"]


def snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files + [""]:
            p = os.path.join(d, n)
            s = os.lstat(p)
            body = os.readlink(p) if os.path.islink(p) else hashlib.sha1(open(p, "rb").read()).hexdigest() if os.path.isfile(p) else ""
            out[os.path.relpath(p, root)] = (s.st_mode, s.st_ino, s.st_size if os.path.isfile(p) else 0, s.st_mtime_ns, s.st_ctime_ns, s.st_uid, body)
    return out


def tripwire(log, text, rng):
    """The module text with a statement that leaves a trace when the module runs."""
    trip = f"__import__('os').mkdir({log!r} + '/' + str(__import__('time').time_ns()))\n"
    if isinstance(text, bytes):
        return text
    bom = text[:1] if text.startswith("\ufeff") else ""
    out = bom + trip + text[len(bom):]
    if rng.random() < 0.4:
        out += f"\nclass _Trip:\n    {trip}@(lambda f: {trip.strip()})\ndef _trip(x={trip.strip()}): pass\n"
    return out


def options(rng):
    o = []
    if rng.random() < 0.8:
        o += ["--runner", rng.choice(["native", "pytest"])]
    if rng.random() < 0.4:
        o += [rng.choice(["-n", "--numprocesses"]), rng.choice(["0", "1", "2", "5", "auto", "logical", "300"])]
    if rng.random() < 0.3:
        o += ["--maxprocesses", rng.choice(["0", "1", "3"])]
    if rng.random() < 0.3:
        o += ["--dist", rng.choice(["load", "loadscope", "loadfile", "worksteal", "no"])]
    if rng.random() < 0.3:
        o += [rng.choice(["-e", "--env"]), rng.choice(["A=B", "PYTHONPATH=/nowhere", "nothing", "PYTEST_ADDOPTS=-x"])]
    return o


def one(job):
    cli, root, seed = job
    rng = random.Random(seed)
    side = root + ".x"
    for d in ("log", "tmp", "home"):
        os.makedirs(os.path.join(side, d))
    log = os.path.join(side, "log")
    python, started = recording_python(side)
    os.makedirs(root)
    p = Project(rng, root, native=rng.random() < 0.5)
    for rel, text in p.files.items():
        if rel.endswith(".py"):
            write_file(os.path.join(root, rel), tripwire(log, text, rng))
    if rng.random() < 0.5:
        for n in rng.sample(["conftest.py", "setup.py", "sitecustomize.py", "usercustomize.py", "pytest.py", "rtest.py", "pytest_plugin.py", "noxfile.py"], 2):
            if not p.test_file(n):
                write_file(os.path.join(root, n), tripwire(log, "", rng))
    broken = 0
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 2, 2, 12, 30, 120])):
            n = p.file_name()
            if n:
                write_file(os.path.join(root, rng.choice(p.dirs)[0], n), rng.choice(BROKEN))
                broken += 1
    for rel, dotted in rng.sample(p.tests, min(len(p.tests), 2)):       # entries whose names differ little
        stem = os.path.join(root, rel)[:-3]
        if dotted is None and not p.links and rng.random() < 0.4:
            for twin in rng.sample([stem.upper() + ".py", stem.title() + ".py", stem + "/test_in.py", stem + ".d/test_in.py", stem + "!.py", stem + "_.py"], 4):
                if not os.path.lexists(twin):
                    write_file(twin, tripwire(log, "def test_a(): pass\nclass TestT:\n    def test_b(self): pass\n", rng))
    args = p.args()
    if rng.random() < 0.1:
        args = args + ["no_such_dir"]
    env = {"TMPDIR": os.path.join(side, "tmp"), "HOME": os.path.join(side, "home"), "XDG_CACHE_HOME": os.path.join(side, "home"), "PYTHONDONTWRITEBYTECODE": ""}
    before, sides = snapshot(root), snapshot(side)
    runs = []
    for k in range(2):
        o = options(rng)
        at = rng.randrange(len(args) + 1)
        argv = args[:at] + o + args[at:] + ["--collect-only"] if rng.random() < 0.5 else ["--collect-only"] + o + args
        runs.append((argv, cli.listing_of(argv, root, python=python, env=env)))
    rec = {"root": root, "files": p.files, "config": p.config, "args": [r[0] for r in runs]}
    bad = None
    after, sides2 = snapshot(root), snapshot(side)
    if os.listdir(log):
        bad = "code of the project was executed"
    elif open(started).read():
        bad = f"a process was started: {open(started).read()[:300]}"
    elif after != before:
        bad = f"the project changed: {[k for k in set(after) | set(before) if after.get(k) != before.get(k)][:5]}"
    elif sides2 != sides:
        bad = f"something was written: {[k for k in set(sides2) | set(sides) if sides2.get(k) != sides.get(k)][:5]}"
    for argv, r in runs:
        bad = bad or consistent(r)
    if not bad and runs[0][1].raw != runs[1][1].raw:
        bad = f"two listings of one project differ: {runs[0][0]} {runs[1][0]}"
    if not bad:
        # the same project at another place, its files created in another order
        twin = root + ".twin"
        copy(root, twin, rng)
        up = os.path.join("..", os.path.basename(root), "")
        moved = [twin + a[len(root):] if a == root or a.startswith(root + "/") else a.replace(up, up[:-1] + ".twin/") if a.startswith(up) else a for a in args]
        r = cli.listing_of(["--collect-only", *moved], twin, python=python, env={"PYTHONHASHSEED": "7"})
        if r.raw.replace(twin, root) != runs[0][1].raw:
            bad = f"the listing depends on the order of the directory: {r.raw[:400]!r} {runs[0][1].raw[:400]!r}"
    return p, rec, bad, runs


def copy(root, twin, rng):
    entries = []
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        entries += [os.path.normpath(os.path.join(rel, f)) for f in files + [x for x in dirs if os.path.islink(os.path.join(d, x))]]
        entries += [os.path.normpath(os.path.join(rel, x)) + "/" for x in dirs if not os.path.islink(os.path.join(d, x))]
    rng.shuffle(entries)
    os.makedirs(twin)
    for e in entries:
        dst = os.path.join(twin, e)
        if e.endswith("/"):
            os.makedirs(dst, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        src = os.path.join(root, e)
        if os.path.islink(src):
            os.symlink(os.readlink(src).replace(root, twin), dst)
        else:
            shutil.copyfile(src, dst)


def consistent(r):
    if len(set(r.nodes)) != len(r.nodes):
        return f"listed twice: {[n for n in r.nodes if r.nodes.count(n) > 1][:3]}"
    if r.rc == 4:
        return None if not r.raw else f"a listing although a path is missing: {r.raw[:200]}"
    if r.items != len(r.nodes) or r.errors != len(r.error_nodes):
        return f"announced {r.items} items and {r.errors} errors, listed {len(r.nodes)} and {len(r.error_nodes)}"
    if r.warnings != len([x for x in r.warning_lines if "RtestCollectionWarning" in x]) and not r.none:
        return f"announced {r.warnings} warnings, listed {r.warning_lines[:4]}"
    if r.rc != (1 if r.errors else 0):
        return f"status {r.rc} with {r.errors} errors"
    if r.none != (not r.items and not r.errors):
        return f"says 'No tests collected' with {r.items} items"
    return None


def main(ck):
    cli, base, rng = Cli(ck), ck.scratch(created_order=True), ck.rng
    for rnd in ck.rounds(ck.n(8, 30), ck.n(8, 300)):
        jobs = [(cli, os.path.join(base, f"p{rnd}-{k}"), rng.random()) for k in range(40)]
        for (_, root, seed), (p, rec, bad, runs) in zip(jobs, W.pmap(one, jobs)):
            ck.case((p.files, rec["args"]), nontrivial=bool(runs[0][1].nodes),
                    sample={"argv": rec["args"], "files": sorted(p.files)[:6], "listed": len(runs[0][1].nodes)})
            ck.count("listings", 3)
            ck.count("listed", len(runs[0][1].nodes))
            ck.count("errors", runs[0][1].errors)
            ck.count("warnings", runs[0][1].warnings)
            ck.count("missing_path", runs[0][1].rc == 4)
            if bad:
                ck.violation(f"{rec['args']}: {bad}", {**rec, **runs[0][1].brief()})
            for suffix in ("", ".x", ".twin"):
                ck.drop(root + suffix)


if __name__ == "__main__":
    Check("C25", "Projects whose every module leaves a trace when it runs (also conftest, setup, sitecustomize and modules named like pytest "
          "and rtest), listed with --collect-only under random runners, worker counts, modes, caps, environment options and path arguments. "
          "Watched: traces, the project (content, modes, inodes, times), temporary and home directory, a recording stand-in for "
          "sys.executable; each listing repeated under other options and for a copy created in another order. Non-trivial: something is "
          "listed; distinct by files and arguments.",
          assumptions=["the parser is the stand-in for ruff's, built on CPython's grammar"]).main(main, 100)
