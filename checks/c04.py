"""C04: the summary conserves the workers' reports (conservation monitor over scripted reports)."""
import json
import os
import re
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import scripted as S
import workers as W
from vlib import Check

BITS = ["plain", "é中文", "tab\there", "quote\"s'", "back\\slash", "\x1b[31mred\x1b[0m", "nul\x00", "\u2028sep", "{}", "%s %d", "=====",
        "10 passed", "FAILED", "x" * 5000, "\U0001f600", "  indented", "trailing  ", "", "\x85nel", "</script>", "\\n", "a\rb"]


def text(rng, tag):
    n = rng.choice([1, 1, 2, 6])
    if rng.random() < 0.002:
        lines = [f"{tag}long line {i} {'=' * 60}" for i in range(rng.choice([4000, 20000]))]
    elif rng.random() < 0.01:
        lines = [f"{tag}line {i} {rng.choice(BITS)[:20]}" for i in range(rng.choice([60, 300, 1500]))]
    else:
        lines = [tag + rng.choice(BITS) for _ in range(n)]
        if rng.random() < 0.3:
            lines.insert(rng.randrange(1, n + 1), rng.choice(["", "", "   "]))
    return "\n".join(lines) + rng.choice(["", "\n", "\n\n"])


def worker_lines(rng, f, count):
    out = []
    if count > 5000:        # every one to be listed
        outcome = rng.choice(["failed", "error"])
        if count > 50000:
            outcome = "passed"
        rs = [S.result(rng, f"{f}::test_{j}.", outcome, f"T{f}.{j}.") for j in range(count)]
        if count > 50000:
            rs[-1] = S.result(rng, f"{f}::test_{count - 1}.", "failed", f"T{f}.{count - 1}.")
        return [(r, json.dumps(r)) for r in rs]
    for j in range(count):
        nodeid = f"{f}::test_{j}<{rng.choice(BITS)[:40]}>"
        if out and rng.random() < 0.04:     # a name reported before
            nodeid = next((r["nodeid"] for r, _ in reversed(out) if r and r["outcome"] in ("passed", "skipped")), nodeid)
            r = S.result(rng, nodeid, rng.choice(["passed", "skipped"]))
            out.append((r, json.dumps(r)))
            continue
        again = [r["nodeid"] for r, _ in out[-40:] if r and r["outcome"] in ("failed", "error")]
        if again and rng.random() < 0.03:   # a name that failed before, in another way
            nodeid = again[-1]
            r = S.result(rng, nodeid, rng.choice(["failed", "error"]), text(rng, f"T{f}.{j}:"))
            out.append((r, json.dumps(r)))
            continue
        outcome = rng.choices(["passed", "failed", "error", "skipped"], rng.choice([(6, 1, 1, 1), (1, 1, 1, 1), (1, 0, 0, 0), (0, 1, 3, 0), (1, 0, 0, 4)]))[0]
        r = S.result(rng, nodeid, outcome, text(rng, f"T{f}.{j}:"))
        if outcome in ("failed", "error"):
            c = rng.random()
            if c < 0.15:
                r["error"] = {"reason": text(rng, f"R{f}.{j}:").strip("\n")}
            elif c < 0.25:
                r["error"] = None
            elif c < 0.3:
                r["error"] = {}
        r["stdout"], r["stderr"] = (text(rng, "S"), text(rng, "E")) if rng.random() < 0.5 else ("", "")
        if rng.random() < 0.001:
            r[rng.choice(["stdout", "stderr"])] = "long " * rng.choice([10 ** 6, 4 * 10 ** 6])
        if rng.random() < 0.2:
            r["future_field"] = {"a": [1, None]}
        if rng.random() < 0.1:
            for k in ("stdout", "stderr", "error_type"):
                r.pop(k)
        if rng.random() < 0.05:
            r["error_type"] = rng.choice(["Skipped", "AssertionError", ""])
        if rng.random() < 0.1:
            r["duration_ms"] = rng.choice([0, 1, -0.5, -0.0, 1e9, 1e-9, 123456.789])
        line = json.dumps(r, ensure_ascii=rng.random() < 0.5)
        out.append((r, line))
        if rng.random() < 0.03:
            out.append((None, rng.choice(["", "   "])))
    return out


def shown(out, lines, pos=0):
    """The first of the lines that is not shown, if any, as consecutive ends of output lines behind pos."""
    want = [w.rstrip("\r") for w in lines]
    while want and not want[-1].strip():
        want.pop()
    if not want:
        return None
    first = next(i for i, w in enumerate(want) if w.strip())
    k, worst = pos, want[first]
    while True:
        k = out.find(want[first], k)
        if k < 0:
            return worst
        at = k + len(want[first])
        for w in want[first + 1:]:
            end = out.find("\n", at)
            nxt = out.find("\n", end + 1)
            line = out[end + 1:nxt if nxt >= 0 else len(out)].rstrip("\r") if end >= 0 else None
            if line is None or out[at:end].strip("\r") or not line.endswith(w) or not w.strip() and line.strip():
                worst = w
                break
            at = end + 1 + len(line)
        else:
            return None
        k += 1


def main(ck):
    exe, base, rng = build.core(), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(5, 20), ck.n(14, 400)):
        cases = []
        for k in range(12):
            sd = os.path.join(base, f"r{rnd}-{k}")
            os.makedirs(sd)
            many = (rnd, k) == (1, 2) or rng.random() < 0.004
            names = [a + b for a in " bcdefgh" for b in "abcdefghijklmnopqrstu"]
            files = [f"test_{x.strip()}.py" for x in names[:rng.choice([135, 168]) if many else rng.choice([1, 2, 3, 6, 9])]]
            per = {f: worker_lines(rng, f, 5400 if (rnd, k, f) == (1, 1, files[0]) else 101000 if (rnd, k, f) == (1, 3, files[-1]) else rng.choice([0, 1, 2, 5, 20] + ([3000] if k == 0 else []))) for f in files}
            plan = {f: {"results": [line for _, line in v],
                        "end": {"kind": "told", "code": 1, "sleep": rng.choice([0, 0.02])}
                        if any(r and r["outcome"] in ("failed", "error") for r, _ in v) else None} for f, v in per.items()}
            if rng.random() < 0.2:      # what was reported counts even if the worker does not end well
                plan[rng.choice(files)]["end"] = {"kind": "late", "noise": rng.choice([0, 1, 3000]), "sleep": rng.choice([0, 0.02]),
                                                  rng.choice(["code", "signal"]): 9}
            n = 200 if many else rng.choice([1, 2, 3, len(files), 20])
            if n >= len(files) > 1 and rng.random() < 0.4:      # workers without a report take nothing from the others' reports
                for f in rng.sample(files, rng.choice([1, 1, len(files) // 2])):
                    if len(per[f]) < 1000:
                        per[f], plan[f] = [], {"results": [], "end": S.make_ending(rng, rng.choice(["missing", "early", "killed_before", "vanish"]))}
            cases.append((sd, files, per, plan, n))
        tmp = os.path.join(base, f"tmp{rnd}")       # of all the runs at once
        done = W.pmap(lambda c: S.Native(exe, c[0], c[1], c[3], c[4], tmp=tmp), cases, jobs=4)
        ck.drop(tmp)
        for (sd, files, per, plan, n), r in zip(cases, done):
            results = [x for v in per.values() for x, _ in v if x]
            want = Counter(x["outcome"] for x in results)
            want = {k: want.get(k, 0) for k in ("passed", "failed", "error", "skipped")}
            ck.case((n, [(x["nodeid"], x["outcome"], x["error"]) for x in results[:200]]), nontrivial=len(results) > 1,
                    sample={"workers": len(r.log), "counts": want, "summary": r.summary()})
            ck.count("results", len(results))
            listed = Counter(x["nodeid"] for x in results if x["outcome"] in ("failed", "error"))
            ck.count("ended_badly", sum(v["end"] is not None and v["end"]["kind"] != "told" for v in plan.values()))
            s, bad = r.summary(), None
            if r.code is None or s is None:
                bad = "no summary"
            elif s[1] != want:
                bad = f"summary {s[1]} instead of {want}"
            else:
                places = {}
                for m in re.finditer(r"test_\w{1,2}\.py::test_\d+[<.]", r.out):
                    places.setdefault(m[0], []).append(m.start())
                for x in results:
                    found = [p for p in places.get(re.match(r".*?test_\d+[<.]", x["nodeid"])[0], []) if r.out.startswith(x["nodeid"], p)]
                    if x["outcome"] in ("passed", "skipped"):
                        if found:
                            bad = f"{x['outcome']} test {x['nodeid']!r} is listed"
                            break
                        continue
                    k, times = found[0] if found else 0, len(found)
                    if times != listed[x["nodeid"]]:
                        bad = f"{x['outcome']} test {x['nodeid']!r} is listed {times} times instead of {listed[x['nodeid']]}"
                        break
                    e = x["error"] or {}
                    body = e.get("traceback", e.get("reason"))
                    if body is not None:
                        miss = shown(r.out, body.split("\n"), k)
                        if miss is not None:
                            bad = f"the traceback or reason of {x['nodeid']!r} is not shown: {miss[:80]!r}"
                            break
            if bad:
                ck.violation(bad[:1000], {"n": n, "files": files, "status": r.code, "stderr": r.err[-1000:], "stdout": r.out[-3000:],
                                          "plan": {f: v["results"][:50] for f, v in plan.items()}})
            ck.drop(sd)


Check("C04", "Scripted reports of 0-101000 results over 1-168 workers: identifiers, tracebacks, reasons and outputs with control "
      "characters, escapes, separators, non-ASCII, text that looks like a summary; missing optional and unknown extra "
      "fields; blank lines; repeated names; results of 20 MB; tracebacks of 2 MB; workers that end badly after or without reporting. Non-trivial: at least two results; distinct by results and worker count.",
      assumptions=["outcomes are the four the worker writes", "the summary's last line has the form "
                   "'===== WORD counts in TIME ====='"]).main(main, 50)
