"""C21: leftovers of a native run (file system and process table monitor around every run)."""
import os
import signal
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import scripted as S
import workers as W
from vlib import PY, Check, Inconclusive, base_env, one_shot, write_file


def snapshot(d):
    out = {}
    for p, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(p, x), d)] = "dir"
        for x in files:
            q = os.path.join(p, x)
            st = os.lstat(q)
            out[os.path.relpath(q, d)] = (st.st_size, st.st_mtime_ns)
    return out


def alive(pid, mark):
    try:
        with open(f"/proc/{pid}/cmdline", "rb") as f:
            return mark.encode() in f.read()
    except OSError:
        return False


BODIES = ["pass", "assert False", "raise ValueError", "import sys; sys.exit(3)", "import os; os._exit(7)", "print('x' * 100000)",
          "import os, signal; os.kill(os.getpid(), signal.SIGKILL)", "import sys; sys.stdout.close()", "raise KeyboardInterrupt",
          "import time; time.sleep(0.3)"]
# leaves a process running, with all the streams the worker has
DAEMON = ("import os, subprocess; p = subprocess.Popen(['sleep', '100'], start_new_session=True); "
          "f = open(os.environ['RTV_PIDS'], 'a'); f.write(f'{p.pid}\\n'); f.close()")


def real(ck, exe, site, sd, rng):
    """The real worker: nothing but the report may appear, whatever the tests do, and the run ends with its workers."""
    daemons = rng.random() < 0.4
    root, tmp, home = (os.path.join(sd, x) for x in ("root", "tmp", "home"))
    for x in (root, tmp, home):
        os.makedirs(x)
    files = []
    for i in range(rng.choice([1, 2, 4])):
        f = os.path.join(root, rng.choice(["", "sub/", "x/y/"]) + f"test_{i}.py")
        text = "" if rng.random() < 0.85 else rng.choice(["raise ImportError('x')\n", "import os; os._exit(0)\n", "def broken(:\n"])
        for j in range(rng.choice([1, 3])):
            text += f"def test_{j}():\n    {DAEMON if daemons and rng.random() < 0.4 else rng.choice(BODIES)}\n"
        write_file(f, text)
        files.append(f)
    before = snapshot(root), snapshot(home)
    op = {"python": PY, "root": root, "n": rng.choice([1, 2, 4]), "files": files, "python_files": ["*.py"],
          "python_classes": ["Test*"], "python_functions": ["test*"]}
    opd = os.path.join(sd, "op")
    os.makedirs(opd)
    pids = os.path.join(sd, "pids")
    left_running = late = 0
    try:
        code, out, err, rc = one_shot(exe, "native", op, opd, base_env(site, {"TMPDIR": tmp, "HOME": home, "RTV_PIDS": pids}), cwd=root, timeout=60)
    except Inconclusive:
        late, code = True, 0
    for pid in open(pids).read().split() if os.path.exists(pids) else []:
        if alive(pid, "sleep"):
            left_running += 1
            os.kill(int(pid), signal.SIGKILL)
    if late and not left_running:
        raise Inconclusive("a run took more than 60 s")
    after = snapshot(root), snapshot(home)
    return {"kind": "real", "files": {f: open(f).read() for f in files}, "code": code, "left": sorted(os.listdir(tmp)),
            "changed": [sorted(set(b.items()) ^ set(a.items()), key=repr) for b, a in zip(before, after)], "alive": [], "n": op["n"],
            "endings": ["real"], "late": late, "daemons": left_running}


def scripted(ck, exe, sd, spec, n, python):
    files = [f"test_{i}.py" for i in range(len(spec))]
    os.makedirs(os.path.join(sd, "root"))
    plan = {f: {"results": [], "end": e} for f, e in zip(files, spec)}
    before = snapshot(os.path.join(sd, "root"))
    r = S.Native(exe, sd, files, plan, n, python=python)
    after = snapshot(os.path.join(sd, "root"))
    left = sorted(os.listdir(os.path.join(sd, "tmp")))
    return {"kind": "scripted", "files": spec, "code": r.code, "left": left, "changed": [sorted(set(before.items()) ^ set(after.items()), key=repr)],
            "alive": [x["pid"] for x in r.log if alive(x["pid"], "rtv_fakeworker")], "n": n, "workers": len(r.log),
            "endings": sorted({e["kind"] if e else "honest" for e in spec})}


def main(ck):
    exe, site, base, rng = build.core(), build.python_site(), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(5, 20), ck.n(10, 300)):
        jobs = []
        for k in range(16):
            sd = os.path.join(base, f"r{rnd}-{k}")
            os.makedirs(sd)
            if k % 4 == 0:
                jobs.append(lambda sd=sd, r=__import__("random").Random(rng.random()): real(ck, exe, site, sd, r))
            else:
                spec = []
                for _ in range(rng.choice([1, 2, 3, 5, 5, 14, 40])):
                    c = rng.random()
                    e = S.make_ending(rng, rng.choice(S.ENDINGS)) if c < 0.5 else None
                    if c > 0.75:        # still busy while the others have long ended
                        e = {"kind": "slow", "sleep": rng.choice([0.3, 0.6])}
                    spec.append(e)
                python = os.path.join(sd, "no-such") if rng.random() < 0.06 else None
                n = rng.choice([1, 2, 5] if len(spec) < 10 else [9, 14, 40])
                jobs.append(lambda sd=sd, spec=spec, n=n, python=python: scripted(ck, exe, sd, spec, n, python))
        for r in W.pmap(lambda j: j(), jobs, jobs=5):
            ck.case((r["kind"], repr(r["files"]), r["n"]), nontrivial=True,
                    sample={"kind": r["kind"], "endings": r["endings"], "status": r["code"], "left": r["left"]})
            ck.count(r["kind"] + "_runs")
            ck.count("workers", r.get("workers", 0))
            bad = None
            ck.count("processes_left_by_tests", r.get("daemons", 0))
            if r.get("late"):
                bad = f"the run does not end, though its workers have, while {r['daemons']} processes started by tests are running"
            elif r["code"] is None:
                bad = "the run itself ended abnormally"
            elif r["left"]:
                bad = f"temporary entries remain: {r['left'][:4]}"
            elif any(r["changed"]):
                bad = f"files were changed: {r['changed']}"[:400]
            elif r["alive"]:
                bad = f"{len(r['alive'])} workers are still running"
            if bad:
                ck.violation(f"{bad} (endings {r['endings']}, {r['n']} workers)", r)
        for k in range(16):
            ck.drop(os.path.join(base, f"r{rnd}-{k}"))


Check("C21", "Native runs with scripted workers (12 kinds of bad endings, slow ones among fast and crashed ones, unstartable "
      "interpreters) and with the real worker (bodies that pass, fail, exit, kill themselves, leave processes running; files that do not import), "
      "1-5 workers; the temporary directory, the project, the home directory and the recorded process numbers are looked "
      "at after each run. Every run is non-trivial; distinct by files, endings and count.", level="fault_enumeration",
      assumptions=["the run itself is not killed", "Python's byte-code cache is switched off"]).main(main, 50)
