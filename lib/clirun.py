"""Complete command-line runs (rtest with its compiled extension) and pytest as an oracle, through a pool of servers."""
import json
import os
import queue
import re
import subprocess
import threading

import build
from vlib import PY, RUNTIME, Inconclusive, base_env, popen, write_script


class Cli:
    def __init__(self, ck, jobs=8, env=None):
        self.site = build.full()
        self.dir = ck.scratch()
        self.env = base_env(self.site, env)
        self.free = queue.Queue()
        self.serial = 0
        self.lock = threading.Lock()
        self.procs = []
        for _ in range(jobs):
            p = popen([PY, os.path.join(RUNTIME, "rtv_cliserver.py")], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env, cwd=self.dir, text=True)
            self.procs.append(p)
            self.free.put(p)

    def call(self, kind, argv, cwd, env=None, python=None, timeout=120, uid=None):
        with self.lock:
            self.serial += 1
            stem = os.path.join(self.dir, str(self.serial))
        req = {"kind": kind, "argv": argv, "cwd": cwd, "env": env, "python": python or PY, "uid": uid, "timeout": timeout,
               "out": stem + ".out", "err": stem + ".err", "extra": stem + ".json"}
        p = self.free.get()
        try:
            p.stdin.write(json.dumps(req) + "\n")
            p.stdin.flush()
            line = p.stdout.readline()
        except OSError as e:
            raise Inconclusive(f"the server of command-line runs ended: {e}")
        if not line:
            raise Inconclusive("the server of command-line runs ended")
        self.free.put(p)
        r = json.loads(line)
        if r["timeout"]:
            raise Inconclusive(f"time limit of {timeout}s hit by {kind} {argv}")
        for k in ("out", "err"):
            with open(req[k], "rb") as f:
                r[k] = f.read().decode("utf-8", "surrogateescape")
            os.unlink(req[k])
        if os.path.exists(req["extra"]):
            r["pytest"] = json.load(open(req["extra"]))
            os.unlink(req["extra"])
        return r

    def rtest(self, argv, cwd, **kw):
        return self.call("rtest", argv, cwd, **kw)

    def listing(self, argv, cwd, **kw):
        return Listing(self.rtest([*argv, "--collect-only"], cwd, **kw))

    def listing_of(self, argv, cwd, **kw):
        return Listing(self.rtest(argv, cwd, **kw))

    def pytest_collect(self, argv, cwd, **kw):
        return self.pytest_run(["--collect-only", "-q", *argv], cwd, **kw)

    def pytest_run(self, argv, cwd, **kw):
        r = self.call("pytest", argv, cwd, **kw)
        if "pytest" not in r:
            raise Inconclusive(f"pytest gave no answer: {r['rc']} {r['out'][-800:]} {r['err'][-800:]}")
        return r["pytest"]

    def close(self):
        for p in self.procs:
            p.stdin.close()
            p.wait()


ANSI = re.compile("\x1b\\[[0-9;]*m")
WARN = re.compile(r"warning: Cannot statically expand test cases for '(.*)': ", re.S)


class Listing:
    """What a run's output says was collected. `nodes` is None if the output does not have the expected form."""

    def __init__(self, r):
        self.rc, self.raw, self.err = r["rc"], r["out"], r["err"]
        text = ANSI.sub("", r["out"])
        self.text = text
        self.items = self.errors = self.warnings = 0
        self.nodes, self.error_nodes, self.warning_lines = [], re.findall(r"^_ ERROR collecting (.*) _$", text, re.M), []
        self.none = "No tests collected." in text
        m = re.search(r"^(?=.)(?:collected (\d+) items?)?(?:(?:^| / )(\d+) errors?)?(?:(?:^| / )(\d+) warnings?)?\n", text, re.M)
        self.counted = m is not None
        rest = text
        if m:
            self.items, self.errors, self.warnings = (int(x or 0) for x in m.groups())
            rest = text[m.end():]
        body, _, tail = rest.partition("=============================== warnings summary ===============================\n")
        self.nodes = [x[2:] for x in body.split("\n") if x.startswith("  ")]
        if tail:
            self.warning_lines = tail.split("-- Docs: ")[0].rstrip("\n").split("\n")
        self.unexpanded = {m[1] for m in map(WARN.search, self.warning_lines) if m}
        self.tail = tail if tail else rest

    def brief(self):
        return {"rc": self.rc, "out": self.raw[-3000:], "err": self.err[-1500:]}


def recording_python(directory):
    """(stand-in for sys.executable, file that has a line for each of its starts)."""
    log = os.path.join(directory, "started")
    path = os.path.join(directory, "recpython")
    write_script(path, f'#!/bin/sh\necho "$*" >> {log}\nexit 0\n')
    open(log, "w").close()
    os.chmod(log, 0o666)
    return path, log
