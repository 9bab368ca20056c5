"""C13: distribution conserves tests (conservation monitor over the schedulers' batches)."""
import os
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import gen_ids as G
from vlib import Check, Driver


def judge(tests, n, mode, r):
    if "batches" not in r:
        return f"no batches: {r}"
    b = r["batches"]
    if len(b) > n:
        return f"{len(b)} batches for {n} workers"
    if any(not x for x in b):
        return "an empty batch"
    got, want = Counter(t for x in b for t in x), Counter(tests)
    if got != want:
        return f"lost {list((want - got).elements())[:4]} gained {list((got - want).elements())[:4]}"
    pos = {}
    for i, t in enumerate(tests):
        pos.setdefault(t, []).append(i)
    for x in b:
        # listed order within one scope of one batch (identical identifiers are interchangeable)
        last = {}
        used = {}
        for t in x:
            k = used.get(t, 0)
            used[t] = k + 1
            sc = G.scope_of(t)
            if pos[t][-1] < last.get(sc, -1):
                return f"order within scope {sc} changed at {t}"
            cand = [p for p in pos[t] if p >= last.get(sc, -1)]
            last[sc] = cand[0]
    return None


def main(ck):
    d = Driver(build.core())
    d2 = Driver(build.core())
    for kind, tests, n in G.workloads(ck):
        modes = G.MODES if kind != "large" else ck.rng.sample(G.MODES, 3)
        for mode in modes:
            r = d.call(op="distribute", mode=mode, tests=tests, n=n)
            ck.case((mode, n, tests), nontrivial=len(tests) > 0,
                    sample={"mode": mode, "workers": n, "tests": tests[:6], "count": len(tests),
                            "batches": [len(x) for x in r.get("batches", [])][:10]})
            ck.count(f"lists_{kind}")
            ck.count("tests_distributed", len(tests))
            bad = judge(tests, n, mode, r)
            if bad:
                ck.violation(f"{mode} over {n} workers: {bad}", {"mode": mode, "n": n, "tests": tests, "reply": r})
            elif kind != "small-scope" or ck.rng.random() < 0.1:
                ck.count("repeated_for_determinism")
                other = d2 if ck.rng.random() < 0.5 else d
                r2 = other.call(op="distribute", mode=mode, tests=tests, n=n)
                if r2 != r:
                    ck.violation(f"{mode} over {n} workers: two calls differ", {"mode": mode, "n": n, "tests": tests,
                                                                               "first": r, "second": r2})


Check("C13", "Test lists: every list of up to 3 (thorough 4) of 6 fixed identifiers x 5 worker counts, all sizes around "
      "multiples of 1..40 workers, seeded random lists and lists up to 65537; each in every mode. Non-trivial: the list "
      "is not empty. Counted distinct by (mode, workers, list).",
      assumptions=["drives the public scheduler interface of the crate's ruff-free modules, built from the tree"]).main(main, 500)
