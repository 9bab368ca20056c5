"""C14: grouping and balance of every distribution mode (reference-model monitor over the batches)."""
import os
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import gen_ids as G
from vlib import Check, Driver


def judge(tests, n, mode, b):
    if mode == "no":
        return None if b == ([tests] if tests else []) else "not a single batch in listed order"
    if mode in ("load", "worksteal"):
        if len(b) != min(n, len(tests)):
            return f"{len(b)} batches for {len(tests)} tests over {n} workers"
        sizes = [len(x) for x in b]
        if sizes and max(sizes) - min(sizes) > 1:
            return f"batch sizes {min(sizes)}..{max(sizes)}"
        return None
    key = G.file_of if mode == "loadfile" else G.scope_of
    groups = {key(t) for t in tests}
    home = {}
    for i, x in enumerate(b):
        for t in x:
            if home.setdefault(key(t), i) != i:
                return f"group {key(t)} is split over batches {home[key(t)]} and {i}"
    if len(b) != min(n, len(groups)):
        return f"{len(b)} batches for {len(groups)} groups over {n} workers"
    per = Counter(home.values())
    if per and max(per.values()) - min(per.values()) > 1:
        return f"groups per batch {min(per.values())}..{max(per.values())}"
    return None


BAD_MODES = ["", "Load", "LOAD", " load", "load ", "each", "loadgroup", "none", "auto", "0", "loadscopes", "load-scope",
             "work_steal", "yes", "No", "lo\u0430d", "load\n", "loadfile,load", "steal", "scope"]


def main(ck):
    d = Driver(build.core())
    for m in BAD_MODES:
        r = d.call(op="distribute", mode=m, tests=["a.py::t"], n=2)
        ck.case(("mode", m), sample={"mode": m, "reply": r})
        if "error" not in r:
            ck.violation(f"unknown mode {m!r} accepted", {"mode": m, "reply": r})
        a = d.call(op="args", argv=["--dist=" + m])
        if a.get("dist_ok"):
            ck.violation(f"unknown mode {m!r} accepted on the command line", {"mode": m, "reply": a})
    for m in G.MODES:
        a = d.call(op="args", argv=["--dist", m])
        if not a.get("dist_ok"):
            ck.violation(f"documented mode {m!r} rejected", {"mode": m, "reply": a})
    for kind, tests, n in G.workloads(ck):
        for mode in (G.MODES if kind != "large" else ck.rng.sample(G.MODES, 3)):
            r = d.call(op="distribute", mode=mode, tests=tests, n=n)
            groups = len({G.scope_of(t) for t in tests})
            ck.case((mode, n, tests), nontrivial=len(tests) > 1 and n > 1,
                    sample={"mode": mode, "workers": n, "tests": tests[:6], "count": len(tests), "scopes": groups})
            ck.count(f"{mode}_lists")
            if n > 1 and groups > n:
                ck.count("more_scopes_than_workers")
            bad = judge(tests, n, mode, r["batches"]) if "batches" in r else f"no batches: {r}"
            if bad:
                ck.violation(f"{mode} over {n} workers: {bad}", {"mode": mode, "n": n, "tests": tests, "reply": r})


Check("C14", "As C13's lists (case ids containing '::' and brackets, duplicates, many files and classes), plus a list of "
      "unknown mode names. Non-trivial: more than one test and more than one worker; distinct by (mode, workers, list).",
      assumptions=["a class scope is the first component after the file; classes nested in classes are not generated, "
                   "because static collection never yields them"]).main(main, 500)
