"""C22: sequential pytest execution (offline checker over what the stand-in process recorded)."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import workers as W
from c15 import KEYS, ODD, bytes_of, ending, some_keys, text_of  # noqa: E402  (same directory)
from vlib import Check, Driver, base_env, run


def exec_once(ck, exe, sd, case, env):
    os.makedirs(sd)
    cfg, codef = os.path.join(sd, "op.json"), os.path.join(sd, "op.code")
    json.dump({**case["op"], "code_file": codef}, open(cfg, "w"))
    rc, out, err = run([exe, "exec", cfg], env=env, cwd=sd)
    return int(open(codef).read()) if os.path.exists(codef) else None, out, err


def main(ck):
    exe, base, rng = build.core(), ck.scratch(), ck.rng
    env = base_env("/nonexistent", {"RTV_INHERITED": "from-parent", "RTV_OVER": "parent"})
    total = 0
    for rnd in ck.rounds(2, ck.n(5, 120)):
        cases = []
        for k in range(24):
            sd = os.path.join(base, f"r{rnd}-{k}")
            plan, log = sd + ".plan", sd + ".log"
            e = ending(rng, f"s{k}-", big=rng.random() < 0.2)
            kind = rng.choice(["run"] * 8 + ["missing", "isdir", "baddir"])
            wd = None
            if rng.random() < 0.7:
                wd = sd + rng.choice([".work", " dir é", ".-w"])
                os.makedirs(wd)
            if kind == "baddir":
                wd = sd + ".nodir"
            ev = [[key, rng.choice(ODD)] for key in some_keys(rng, rng.randrange(4))]
            lead = rng.sample(ODD, rng.randrange(3))
            tests = [rng.choice(ODD) + str(j) for j in range(rng.choice([0, 1, 3, 60]) if k else rng.choice([1500, 7000]))]
            if rng.random() < 0.3 and tests:
                tests.append(tests[0])
            extra = rng.sample(ODD, rng.randrange(3))
            if extra and rng.random() < 0.3:
                extra.insert(rng.randrange(len(extra) + 1), rng.choice(extra))
            json.dump({"log": log, "endings": [e], "env": [*KEYS, "RTV_INHERITED"]}, open(plan, "w"))
            program = {"missing": sd + ".no-program", "isdir": base}.get(kind, W.SYSPY)
            cases.append({"sd": sd, "kind": kind, "e": e, "wd": wd, "log": log, "lead": lead, "tests": tests,
                          "extra": extra, "env": ev,
                          "op": {"program": program, "initial_args": W.standin_args(plan) + lead, "tests": tests,
                                 "pytest_args": extra, "dir": wd, "env": ev}})
        for c, (code, out, err) in zip(cases, W.pmap(lambda c: exec_once(ck, exe, c["sd"], c, env), cases)):
            total += 1
            log = W.read_log(c["log"])
            ck.case((c["kind"], c["e"], c["lead"], c["tests"], c["extra"], c["env"]), nontrivial=c["kind"] != "run" or bool(c["tests"]),
                    sample={"kind": c["kind"], "ending": c["e"], "tests": c["tests"][:4]})
            ck.count(c["kind"])
            e, bad = c["e"], None
            if code is None:
                bad = "the run itself ended abnormally"
            elif c["kind"] != "run":
                bad = "status 0 though nothing could be started" if code == 0 else "something ran" if log else None
            else:
                if len(log) != 1:
                    bad = f"{len(log)} processes were started"
                elif e.get("signal") and code == 0:
                    bad = "status 0 though the process was killed"
                elif not e.get("signal") and code != e["code"]:
                    bad = f"status {code}, the process ended with {e['code']}"
                elif out != bytes_of(e, "out"):
                    bad = f"standard output differs: {len(out)} bytes shown"
                elif text_of(e, "err") not in err.decode("utf-8", "replace"):
                    bad = f"standard error incomplete: {len(err)} bytes shown"
                else:
                    rec, wd = log[0], c["wd"]
                    given = rec["argv"][len(c["lead"]):]
                    if wd is not None:
                        root = given.pop(0) if given else ""
                        root = (given.pop(0) if given else "") if root == "--rootdir" else root[10:] if root.startswith("--rootdir=") else None
                    want_env = {k: env.get(k) for k in [*KEYS, "RTV_INHERITED"]}
                    want_env.update({k: v for k, v in c["env"]})
                    if rec["argv"][:len(c["lead"])] != c["lead"] or given != c["tests"] + c["extra"]:
                        bad = f"arguments {rec['argv'][:12]}"
                    elif wd is not None and (root is None or os.path.realpath(os.path.join(rec["cwd"], root)) != os.path.realpath(wd)):
                        bad = f"root directory {root!r} in {rec['argv'][:12]}"
                    elif rec["cwd"] != (wd or c["sd"]):
                        bad = f"working directory {rec['cwd']}"
                    elif rec["env"] != want_env:
                        bad = f"environment {rec['env']} instead of {want_env}"
            if bad:
                ck.violation(f"sequential execution: {bad}", {k: c[k] for k in ("kind", "e", "wd", "lead", "tests", "extra", "env")})
            ck.drop(c["sd"])
    sd = os.path.join(base, "limit")
    json.dump({"log": sd + ".log", "endings": [{"code": 0}], "env": []}, open(sd + ".plan", "w"))
    tests = [f"tests/{'x' * 80}/test_{i}.py::test" for i in range(30000)]
    c = {"sd": sd, "op": {"program": W.SYSPY, "initial_args": W.standin_args(sd + ".plan"), "tests": tests, "pytest_args": [], "dir": base, "env": []}}
    code, out, err = exec_once(ck, exe, sd, c, env)
    log = W.read_log(sd + ".log")
    if code != 0 or len(log) != 1 or log[0]["argv"][-len(tests):] != tests:
        ck.violation(f"30000 tests: status {code}, {len(log)} processes", {"status": code, "stderr": err[-600:].decode("utf-8", "replace")},
                     sig="argument-limit" if code and not log else None)
    # requested environment: KEY=VALUE pairs of the command line
    d = Driver(exe, env=env)
    for _ in range(ck.n(300, 3000)):
        pairs = [rng.choice(["A", "B_C", "é", "k v"]) + "=" + rng.choice(ODD + ["a=b", "=", "x=y=z"]) for _ in range(rng.randrange(5))]
        pairs_bad = pairs + (["NOVALUE"] if rng.random() < 0.3 else [])
        rng.shuffle(pairs_bad)
        r = d.call(op="env_pairs", env=pairs_bad)
        ck.case(("env", pairs_bad), nontrivial=bool(pairs), sample=pairs_bad)
        want = [p.split("=", 1) for p in pairs_bad if "=" in p]
        if r.get("env") != want:
            ck.violation(f"environment pairs {pairs_bad} understood as {r.get('env')}", {"pairs": pairs_bad, "reply": r})


if __name__ == "__main__":
    Check("C22", "Single stand-in processes with random identifiers (empty, dashes, quotes, newlines, non-ASCII, repeated), "
          "extra arguments, environments, directories, outputs, exit statuses 0-255, signals, unstartable programs; and "
          "lists of KEY=VALUE pairs. Non-trivial: some test identifier or a start failure; distinct by whole case.",
          assumptions=["the root directory option (--rootdir DIR) precedes the tests if a directory is given"]).main(main, 30)
