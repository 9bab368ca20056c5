"""Native runs whose workers are scripted stand-ins: generation of reports and endings, and execution."""
import json
import os
import re
import signal
import subprocess
import time

import workers as W
from vlib import base_env, popen, run

ENDINGS = ["early", "late", "killed_before", "killed_after", "killed_inside", "cut", "cut_nonzero", "bytes", "dir", "missing",
           "nonzero_clean", "vanish", "unknown", "flaky"]
SIGS = [9, 15, 11, 6, 1, 2]
BAD_BYTES = [b"\xff\xfe\n", b"{\"nodeid\": \n", b"[]\n", b"null\n", b"12\n", b"garbage\n", b"\x00\x01\n", b'"\n',
             b'{"nodeid":"x","outcome":"passed","duration_ms":0.1,"error":null}{"nodeid":\n', b"{\n", b"\xc3\n",
             b'{"nodeid":"x\xff","outcome":"passed","duration_ms":0.1,"error":null}\n']


def make_ending(rng, kind):
    """The script of a worker that does not end as it should; None for an honest worker."""
    nz = rng.choice([1, 1, 2, 3, 4, 5, 120, 127, 134, 137, 139, 254, 255])
    e = {"kind": kind, "sleep": rng.choice([0, 0, 0.01, 0.1])}
    if kind == "early":             # ends before reporting, with any status
        e.update(report="none", code=rng.choice([0, 0, nz, 2]))
    elif kind == "late":            # reports in full, then ends with an unexpected status
        e.update(code=rng.choice([2, 3, 70, 255, 120]))
    elif kind == "nonzero_clean":   # reports that all is well and still ends with status 1
        e.update(code=1)
    elif kind == "killed_before":
        e.update(report="none", signal=rng.choice(SIGS))
    elif kind == "killed_after":
        e.update(signal=rng.choice(SIGS))
    elif kind == "killed_inside":
        e.update(report="cut", by=rng.randrange(10 ** 6), signal=rng.choice(SIGS))
    elif kind == "cut":
        e.update(report="cut", by=rng.randrange(10 ** 6), code=0)
    elif kind == "cut_nonzero":
        e.update(report="cut", by=rng.randrange(10 ** 6), code=nz)
    elif kind == "bytes":
        e.update(report="bytes", bytes=rng.choice(BAD_BYTES).hex(), code=rng.choice([0, 1]))
    elif kind == "dir":
        e.update(report="dir", code=rng.choice([0, 1]))
    elif kind == "missing":
        e.update(report="none", code=rng.choice([0, 1]))
    elif kind == "unknown":         # a result that is none of those known: whatever it is, nobody can call it passed
        outcome = rng.choice(["Passed", "", "xfailed", "FAILED", "pass", "timeout", "Error", "rerun"])
        e.update(report="bytes", bytes=(json.dumps(result(rng, "x.py::test_x", outcome)) + "\n").encode().hex(), code=0)
    elif kind == "flaky":           # a second worker for the same file would end well
        e.update(report=rng.choice(["none", "full", "cut"]), once=f"once{rng.randrange(10 ** 9)}", by=5,
                 **rng.choice([{"signal": rng.choice(SIGS)}, {"code": nz if nz != 1 else 2}, {"code": 2}]))
    elif kind == "vanish":
        e.update(report="none", code=0, noise=rng.choice([1, 20000]))
    return e


def result(rng, nodeid, outcome, text="boom"):
    r = {"nodeid": nodeid, "outcome": outcome, "duration_ms": round(rng.random() * 5, 3), "stdout": "", "stderr": "",
         "error": None, "error_type": None}
    if outcome in ("failed", "error"):
        r["error"] = {"traceback": text}
        r["error_type"] = "AssertionError" if outcome == "failed" else "ValueError"
    elif outcome == "skipped" and rng.random() < 0.6:
        r["error"] = {"reason": text}
    return r


class Native:
    """One native run in directory sd; plan: {file: {"results", "end"}}."""

    def __init__(self, exe, sd, files, plan_files, n, python=None, env=None, timeout=180, tmp=None):
        self.sd = sd
        self.root = os.path.join(sd, "root")
        self.tmp = tmp or os.path.join(sd, "tmp")
        os.makedirs(self.root, exist_ok=True)
        os.makedirs(self.tmp, exist_ok=True)
        plan = os.path.join(sd, "plan.json")
        with open(plan, "w") as f:
            json.dump({"log": os.path.join(sd, "log"), "files": {os.path.join(self.root, k): v for k, v in plan_files.items()}}, f)
        cfg, codef = os.path.join(sd, "op.json"), os.path.join(sd, "op.code")
        op = {"python": python or W.fake_python(sd), "root": self.root, "n": n,
              "files": [os.path.join(self.root, x) for x in files], "python_files": ["*.py"],
              "python_classes": ["Test*"], "python_functions": ["test*"], "code_file": codef}
        with open(cfg, "w") as f:
            json.dump(op, f)
        e = base_env("/nonexistent", {"RTV_PLAN": plan, "TMPDIR": self.tmp, **(env or {})})
        if timeout < 0:         # the run itself is killed once its workers have reported
            p = popen([exe, "native", cfg], env=e, cwd=self.root, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                      stderr=subprocess.DEVNULL, start_new_session=True)
            time.sleep(-timeout)
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return
        self.rc, out, err = run([exe, "native", cfg], env=e, cwd=self.root, timeout=timeout)
        self.code = int(open(codef).read()) & 255 if os.path.exists(codef) else None     # what the system passes on
        self.out, self.err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
        self.log = W.read_log(os.path.join(sd, "log"))

    def summary(self):
        """(word, counts) of the summary's last line; None if there is none."""
        for line in reversed(self.out.split("\n")):
            m = re.fullmatch(r"=+ (PASSED|FAILED) (.*) in [-\d.]+s =+", line)
            if m:
                counts = {"passed": 0, "failed": 0, "error": 0, "skipped": 0}
                for part in filter(None, m[2].split(", ")):
                    k, name = part.split(" ", 1)
                    counts[name.rstrip("s") if name == "errors" else name] = int(k)
                return m[1], counts
        return None
