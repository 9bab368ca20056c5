"""C01: fault enumeration over worker endings; the oracle is what each scripted worker recorded that it delivered."""

import itertools
import json
import os
import resource
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import scripted as S
import workers as W
from vlib import Check, base_env


STATUSES = [2, 3, 4, 5, 64, 70, 77, 100, 120, 125, 126, 127, 128, 129, 130, 134, 137, 139, 141, 143, 254, 255]


def plans(ck, rng):
    """Every ending alone (with the rest honest), then random mixes."""
    for kind, outcome, n in itertools.product(S.ENDINGS + [None], ["passed", "skipped", "failed", "none"], [1, 3]):
        yield [(outcome, kind)] + [("passed", None)] * 2, n
    for outcome, n in itertools.product(["failed", "error"], [256, 512, 1024, 65536]):
        yield [((outcome, n), None)], 1
    for kind in S.ENDINGS:  # the ending in the last worker
        yield [("passed", None)] * 3 + [("passed", kind)], 4
    # a clean report, and then any other status
    for code in [*STATUSES, *rng.sample(range(2, 256), ck.n(15, 200))]:
        yield [("passed", {"kind": "late", "code": code})], 1
    while True:
        k = rng.choice([1, 2, 3, 5, 8])
        clean = rng.random() < 0.35
        yield (
            [
                (
                    rng.choice(["passed", "passed", "skipped", "none"] + ([] if clean else ["failed", "error"])),
                    None if clean or rng.random() < 0.6 else rng.choice(S.ENDINGS),
                )
                for _ in range(k)
            ],
            rng.choice([0, 1, 2, k, k + 3]),
        )


def limited(ck, exe, base, rng):
    """The user's process limit lets only some of the workers start: whatever happens, the run must not pass."""
    sd = os.path.join(base, "limited")
    os.makedirs(os.path.join(sd, "root"))
    os.makedirs(os.path.join(sd, "tmp"))
    for d in (base, sd, os.path.join(sd, "root"), os.path.join(sd, "tmp")):
        os.chmod(d, 0o777)
    drv = shutil.copy(exe, os.path.join(sd, "drv"))
    worker = shutil.copy(os.path.join(W.RUNTIME, "rtv_fakeworker.py"), sd)
    os.chmod(drv, 0o755)
    os.chmod(worker, 0o644)
    python = os.path.join(sd, "python")
    with open(python, "w") as f:
        f.write(f'#!/bin/sh\nexec {W.SYSPY} -I -S {worker} "$@"\n')
    os.chmod(python, 0o755)
    for k in range(ck.n(6, 40)):
        n, uid = rng.choice([2, 3, 4, 6]), 54000 + k
        allowed = rng.randrange(n + 1)
        log, plan, cfg, codef = (os.path.join(sd, f"{x}{k}") for x in ("log", "plan", "cfg", "code"))
        files = [os.path.join(sd, "root", f"test_{i}.py") for i in range(n)]
        with open(plan, "w") as f:
            json.dump(
                {
                    "log": log,
                    "files": {
                        x: {"results": [S.result(rng, f"{x}::t", "passed")], "end": {"kind": "slow", "sleep": 0.4}}
                        for x in files
                    },
                },
                f,
            )
        with open(cfg, "w") as f:
            json.dump(
                {
                    "python": python,
                    "root": os.path.join(sd, "root"),
                    "n": n,
                    "files": files,
                    "python_files": ["*.py"],
                    "python_classes": [],
                    "python_functions": [],
                    "code_file": codef,
                },
                f,
            )

        def drop():
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
            resource.setrlimit(resource.RLIMIT_NPROC, (1 + n + allowed, 1 + n + allowed))

        try:
            r = subprocess.run(
                [drv, "native", cfg],
                env=base_env("/nonexistent", {"RTV_PLAN": plan, "TMPDIR": os.path.join(sd, "tmp")}),
                cwd=sd,
                preexec_fn=drop,
                capture_output=True,
                text=True,
                errors="replace",
                timeout=120,
            )
        except (subprocess.SubprocessError, OSError):
            ck.count("limit_not_available")
            return
        started = len(W.read_log(log))
        ck.case(
            ("limited", n, allowed, started),
            nontrivial=started < n,
            sample={"workers": n, "started": started, "status": r.returncode},
        )
        ck.count("workers_not_started", n - started)
        if started < n and (r.returncode == 0 or "PASSED" in r.stdout):
            ck.violation(
                f"only {started} of {n} workers could be started, but the run ends with status {r.returncode}: {r.stdout[-200:]}",
                {"n": n, "allowed": allowed, "stdout": r.stdout[-1500:], "stderr": r.stderr[-1500:]},
            )


ENDS_INSIDE = ["os._exit(0)", "os._exit(0)", "os._exit(1)", "os._exit(3)", "os.kill(os.getpid(), 9)", "os.kill(os.getpid(), 15)", "os.abort()",
               "atexit.register(os._exit, 3)", "import threading; t = threading.Thread(target=os._exit, args=(0,)); t.start(); t.join()"]


def real(ck, exe, base, rng):
    """Real workers, some of which end inside one of their tests, or are made to end with another status."""
    site = build.python_site()
    cases = []
    for k in range(ck.n(24, 300)):
        sd, texts, clean = os.path.join(base, f"real{k}"), {}, True
        for i in range(rng.choice([1, 1, 2, 3])):
            end = rng.choice(ENDS_INSIDE) if rng.random() < 0.6 else None
            tests, at = rng.choice([1, 2, 5]), rng.choice([0, 1, 3])
            texts[f"test_{i}.py"] = "import atexit, os, resource\nresource.setrlimit(resource.RLIMIT_CORE, (0, 0))\n" + (end + "\n" if end and at == 3 else "") + "".join(
                f"def test_{j}():\n    {end if end and at < 3 and j == min(at, tests - 1) else 'pass'}\n" for j in range(tests))
            clean = clean and end is None
        for f, t in texts.items():
            os.makedirs(os.path.join(sd, "root"), exist_ok=True)
            with open(os.path.join(sd, "root", f), "w") as out:
                out.write(t)
        cases.append((sd, texts, clean, rng.choice([1, 1, 2, 3])))
    done = W.pmap(lambda c: S.Native(exe, c[0], list(c[1]), {}, c[3], python=W.PY, env={"PYTHONPATH": f"{site}:{W.RUNTIME}"}), cases, jobs=6)
    for (sd, texts, clean, n), r in zip(cases, done):
        ck.case(("real", sorted(texts.items()), n), nontrivial=not clean, sample={"files": texts, "workers": n, "status": r.code})
        ck.count("runs_of_real_workers")
        if r.code is None or (r.code == 0) != clean or ("PASSED" in r.out) != clean:
            ck.violation(f"status {r.code} though {'every worker ended well' if clean else 'a worker ended inside a test'}: {r.out[-100:]!r}",
                         {"files": texts, "n": n, "stdout": r.out[-1500:], "stderr": r.err[-1500:]})
        ck.drop(sd)


def main(ck):
    real(ck, build.core(), ck.scratch(), ck.rng)
    limited(ck, build.core(), ck.scratch(), ck.rng)
    exe, base, rng = build.core(), ck.scratch(), ck.rng
    gen = plans(ck, rng)
    for rnd in ck.rounds(ck.n(13, 30), ck.n(19, 400)):
        cases, tmp = [], None
        if rnd % 2:         # runs at once and one after the other share a directory for temporary files
            tmp = os.path.join(base, f"tmp{rnd}")
            os.makedirs(tmp)
            if rnd % 4 == 1:        # with what a run that was killed left there
                sd, files = os.path.join(base, f"killed{rnd}"), [f"test_{i}.py" for i in range(8)]
                os.makedirs(sd)
                plan = {f: {"results": [S.result(rng, f"{f}::t", "passed")], "end": {"kind": "slow", "noise": 1, "sleep": 0}} for f in files[:-1]}
                plan[files[-1]] = {"results": [S.result(rng, "t", "passed")], "end": {"kind": "slow", "sleep": 20}}
                S.Native(exe, sd, files, plan, 8, timeout=-1.0, tmp=tmp)
                ck.count("left_by_killed_run", sum(len(f) for _, _, f in os.walk(tmp)))
                ck.drop(sd)
        for k in range(16):
            spec, n = next(gen)
            sd = os.path.join(base, f"r{rnd}-{k}")
            os.makedirs(sd)
            files = [f"test_{i}.py" for i in range(len(spec))]
            plan = {}
            for f, (outcome, kind) in zip(files, spec):
                exact = None
                if isinstance(outcome, tuple):
                    outcome, exact = outcome
                count = 0 if outcome == "none" else rng.choice([1, 1, 2, 30])
                res = [S.result(rng, f"{f}::test_{j}", "passed") for j in range(count)]
                if res:
                    at = rng.randrange(len(res))
                    res[at] = S.result(rng, f"{f}::test_{at}", outcome)
                if exact:       # as many as fit no exit status
                    res = [S.result(rng, f"{f}::test_{j}", outcome) for j in range(exact)]
                for _ in range(rng.choice([0, 0, 0, 1, 2])):       # blank lines say nothing
                    if res:
                        res.insert(rng.randrange(len(res)), rng.choice(["", "", "  "]))
                plan[f] = {"results": res, "end": kind if kind is None or isinstance(kind, dict) else S.make_ending(rng, kind)}
            if k == 0 and rnd == 1 or rng.random() < 0.002:     # one that takes its time
                for f in files:
                    plan[f]["end"] = {"kind": "slow", "sleep": ck.n(11, 65)} if f == files[-1] else None
            python = os.path.join(sd, "no-such-python") if rng.random() < 0.04 else None
            if rng.random() < 0.03:
                python = sd
            cases.append((sd, spec, n, files, plan, python))
        done = W.pmap(lambda c: S.Native(exe, c[0], c[3], c[4], c[2], python=c[5], tmp=tmp), cases, jobs=4)
        for (sd, spec, n, files, plan, python), r in zip(cases, done):
            # one that could not be started delivered nothing
            clean = python is None and len(r.log) >= min(max(n, 1), len(files))
            ck.count("runs_with_lost_workers", python is None and not clean)
            for rec in r.log:
                e = rec["end"]
                ck.count("workers")
                if e:
                    ck.count("ending_" + e["kind"])
                if rec["bad"] or e is not None and e["kind"] != "slow":
                    clean = False
            kinds = sorted({rec["end"]["kind"] for rec in r.log if rec["end"]})
            ck.count("workers_launched_again", max(0, len(r.log) - min(max(n, 1), len(files))))
            ck.case(
                (spec, n, kinds, python is not None),
                nontrivial=not clean or len(r.log) > 1,
                sample={"files": spec, "workers": len(r.log), "clean": clean, "status": r.code},
            )
            ck.count("clean_runs", clean)
            s = r.summary()
            bad = None
            if r.code is None:
                bad = "the run itself ended abnormally"
            elif clean and r.code != 0:
                bad = f"status {r.code} though every worker delivered a clean report"
            elif not clean and r.code == 0:
                bad = "status 0 though not every worker delivered a clean report"
            elif not clean and "PASSED" in r.out:
                bad = "the run says PASSED though not every worker delivered a clean report"
            elif clean and s is not None and s[0] != "PASSED":
                bad = "the run says FAILED though every worker delivered a clean report"
            if bad:
                ck.violation(
                    f"{bad} (endings {kinds or 'honest'}, python {'unstartable' if python else 'ok'}, {len(r.log)} workers)",
                    {
                        "files": spec,
                        "n": n,
                        "plan": plan,
                        "status": r.code,
                        "stdout": r.out[-1500:],
                        "stderr": r.err[-1500:],
                        "log": r.log,
                    },
                )
            ck.drop(sd)
        if tmp:
            ck.drop(tmp)


Check(
    "C01",
    "Every kind of ending of a scripted worker (14: statuses with and without a report, signals before, inside and "
    "after the report, cut, garbled, missing reports, unknown outcomes, a directory in its place, only the first time) crossed with what it reports and its "
    "position, then random mixes over 1-8 workers, unstartable interpreters, process limits that let only some"
    " workers start, runs at once and after a killed one in one directory for temporary files; real workers that end inside a test. Non-trivial: some worker is not clean "
    "or several workers run; distinct by files, endings and count.",
    level="fault_enumeration",
    assumptions=[
        "a report that stops exactly between two lines in a worker that then exits with the status of a complete "
        "report cannot be told from a complete one, by anyone, and is not generated"
    ],
).main(main, 100)
