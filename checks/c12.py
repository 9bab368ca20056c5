"""C12: rtest.raises (reference-model monitor run inside the interpreter that runs the real context manager)."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import workers as W
from vlib import PY, RUNTIME, Check, Inconclusive, base_env, run


def main(ck):
    site = build.python_site()
    per = ck.n(6000, 40000)
    for rnd in ck.rounds(1, ck.n(1, 40)):
        seeds = [ck.rng.randrange(1 << 40) for _ in range(8)]
        for seed, (rc, out, err) in zip(seeds, W.pmap(
                lambda s: run([PY, os.path.join(RUNTIME, "rtv_raises.py"), str(s), str(per)], env=base_env(site), timeout=300), seeds)):
            lines = [json.loads(x) for x in out.decode().split("\n") if x.startswith("{")]
            if rc != 0 or not lines or "counts" not in lines[-1]:
                raise Inconclusive(f"the monitor did not finish: {err.decode()[-1500:]}")
            last = lines[-1]
            for b in lines[:-1]:
                ck.violation(b["what"], {"monitor_seed": seed, "cases": per, **b["case"]})
            ck.evals += last["cases"]
            for k in range(last["distinct"]):
                ck.distinct.add((seed, k))
            ck.samples = ck.samples or last["samples"][:6]
            for k, v in last["counts"].items():
                ck.count(k, v)


Check("C12", "Bodies raising 39 exception types (groups, non-Exception bases, multiple inheritance, odd __str__, __bool__, "
      "__eq__) in six ways or nothing at all, against single and tuple expectations and 26 patterns (strings and compiled, "
      "with flags), reused and nested contexts, 14 invalid expectations and 11 invalid patterns. Distinct by (verdict, "
      "expectation, raised type, pattern, way), counted per monitor process.",
      assumptions=["exception classes use the default isinstance semantics"]).main(main, 1000)
