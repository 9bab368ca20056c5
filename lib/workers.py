"""Running the Python worker and the scripted stand-ins, and reading what they recorded."""
import json
import os

import build
from vlib import HERE, PY, RUNTIME, base_env, run, write_script

STANDIN = os.path.join(RUNTIME, "rtv_standin.py")
SYSPY = "/usr/bin/python3"


def standin_args(plan_path):
    return ["-I", "-S", STANDIN, plan_path]


def read_log(path):
    if not os.path.exists(path):
        return []
    with open(path, "rb") as f:
        return [json.loads(x) for x in f.read().split(b"\n") if x]


def fake_python(directory):
    """An executable to be given as the Python interpreter of a native run."""
    return write_script(os.path.join(directory, "fakepython"),
                        f"#!/bin/sh\nexec {SYSPY} -I -S {RUNTIME}/rtv_fakeworker.py \"$@\"\n")


class WorkerRun:
    """One real `python -m rtest.worker` run: status, report (None if missing or unreadable), recorded events."""

    def __init__(self, site, root, files, classes=None, functions=None, env=None, cwd=None, tag="w", timeout=180,
                 scratch=None):
        base = scratch or root + ".run"
        os.makedirs(base, exist_ok=True)
        self.out = os.path.join(base, f"{tag}.jsonl")
        self.log = os.path.join(base, f"{tag}.events")
        cmd = [PY, "-m", "rtest.worker", "--root", root, "--out", self.out]
        if classes is not None:
            cmd += ["--python-classes", *classes]
        if functions is not None:
            cmd += ["--python-functions", *functions]
        cmd += ["--", *files]
        e = base_env(site, {"RTV_LOG": self.log, **(env or {})})
        self.rc, self.stdout, self.stderr = run(cmd, env=e, cwd=cwd or root, timeout=timeout)
        self.events = read_log(self.log)
        self.results = None
        try:
            with open(self.out, "rb") as f:
                results = [json.loads(x) for x in f.read().decode("utf-8").split("\n") if x.strip()]
                json.dumps(results, ensure_ascii=False).encode("utf-8")     # an escaped lone surrogate is no text either
                self.results = results
        except (OSError, ValueError) as err:
            self.report_error = repr(err)

    def brief(self):
        return {"rc": self.rc, "results": None if self.results is None else
                [(r["nodeid"], r["outcome"], r.get("error_type")) for r in self.results][:60],
                "stderr": self.stderr.decode("utf-8", "replace")[-1500:], "events": self.events[:60]}


def pmap(fn, items, jobs=8):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


def copying_python(directory):
    """A real interpreter that also keeps every report it wrote: $RTV_REPORTS/<pid>.jsonl; $RTV_DELAYS: seconds by worker."""
    return write_script(os.path.join(directory, "copypython"), f'''#!/bin/bash
out=; prev=
for a in "$@"; do [ "$prev" = --out ] && out=$a; prev=$a; done
if [ -n "$RTV_DELAYS" ]; then read -ra d <<< "$RTV_DELAYS"; sleep "${{d[$((BASHPID % ${{#d[@]}}))]}}"; fi
{PY} "$@"
rc=$?
cp -- "$out" "$RTV_REPORTS/$BASHPID.jsonl" 2>/dev/null
exit $rc
''')


def read_reports(directory):
    """[(worker, [result, ...])] of the reports kept by copying_python."""
    got = []
    for name in sorted(os.listdir(directory)):
        with open(os.path.join(directory, name), "rb") as f:
            got.append((name, [json.loads(x) for x in f.read().decode("utf-8").split("\n") if x.strip()]))
    return got
