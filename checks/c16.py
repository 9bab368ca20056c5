"""C16: parallel pytest execution (offline checker over the recorded starts of every process)."""
import json
import os
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import gen_tree as T
import workers as W
from c15 import KEYS, ODD, ending, some_keys, text_of
from vlib import Check, base_env, run


def prepare(ck, rng, sd):
    root = os.path.join(sd, rng.choice(["root", "ro ot"]))
    os.makedirs(root)
    files = T.subproject_tree(rng, root)
    nodes = T.nodes(rng, files, at_most=rng.choice([0, 1, 5, 40, 120]))
    if rng.random() < 0.15 and nodes:
        nodes += [nodes[0]]
    if rng.random() < 0.03 and any("::" in n for n in nodes):       # hundreds for each process
        some = [n for n in nodes if "::" in n]
        nodes = [f"{rng.choice(some)}[{i}]" for i in range(rng.choice([1100, 2500, 5000]))]
    endings = [ending(rng, f"e{k}-", big=False) for k in range(rng.choice([1, 3, 6, 6]))]
    if rng.random() < 0.4:
        for e in endings:
            e["code"] = 0
            e.pop("signal", None)
    elif rng.random() < 0.3:        # few kinds of ends, so that they meet
        kinds = rng.sample([0, 1, 2, 254, 255, 128, -9], 2)
        for e in endings:
            e.pop("signal", None)
            e["code"] = rng.choice(kinds)
            if e["code"] < 0:
                e.update(code=0, signal=9)
    plan = os.path.join(sd, "plan.json")
    log = os.path.join(sd, "log")
    env = [[key, rng.choice(ODD)] for key in some_keys(rng, rng.randrange(4))]
    json.dump({"log": log, "endings": endings, "pick": "args", "env": KEYS}, open(plan, "w"))
    op = {"program": W.SYSPY if rng.random() < 0.93 else os.path.join(sd, "no-program"),
          "initial_args": W.standin_args(plan), "root": root, "env": env, "tests": nodes,
          "n": rng.choice([0, 1, 2, 3, 4, 7, 30]), "subprojects": rng.random() < 0.7,
          "dist": rng.choice(["load", "loadscope", "loadfile", "worksteal", "no", "load", "loadscope", rng.choice(["bogus", "", "Load", "loads", "load ", "each", "loadgroup"])])}
    return {"op": op, "endings": endings, "log": log, "sd": sd, "files": files}


def execute(exe, c):
    cfg, codef = os.path.join(c["sd"], "op.json"), os.path.join(c["sd"], "op.code")
    json.dump({**c["op"], "code_file": codef}, open(cfg, "w"))
    rc, out, err = run([exe, "parallel", cfg], env=base_env("/nonexistent"), cwd=c["sd"])
    return int(open(codef).read()) if os.path.exists(codef) else None, out, err


def address(directory, node):
    f, part = T.split(node)
    return (os.path.realpath(os.path.join(directory, f)), part)


def judge(c, code, out, err, log):
    op = c["op"]
    if code is None:
        return "the run itself ended abnormally"
    if op["dist"] not in ("load", "loadscope", "loadfile", "worksteal", "no"):
        return "an unknown mode was accepted" if code == 0 or log else None
    if "no-program" in op["program"]:
        return "status 0 though no process could start" if code == 0 and op["tests"] else None
    got = Counter()
    out, err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    want_env = {**{k: base_env("/nonexistent").get(k) for k in KEYS}, **dict(map(tuple, op["env"]))}
    ok = True
    for rec in log:
        argv = rec["argv"]
        if argv[:1] == ["--rootdir"]:
            where, tests = argv[1], argv[2:]
        elif argv and argv[0].startswith("--rootdir="):
            where, tests = argv[0][10:], argv[1:]
        else:
            return f"no root directory given: {argv[:4]}"
        if os.path.realpath(os.path.join(rec["cwd"], where)) != os.path.realpath(rec["cwd"]):
            return f"root directory {where} but working directory {rec['cwd']}"
        if rec["env"] != want_env:
            return f"environment {rec['env']} instead of {want_env}"
        for t in tests:
            got[address(rec["cwd"], t)] += 1
            if not os.path.exists(os.path.join(rec["cwd"], T.split(t)[0])):
                return f"{t!r} does not exist from {rec['cwd']}"
            home = T.nearest_project(op["root"], os.path.relpath(os.path.join(rec["cwd"], T.split(t)[0]), op["root"])) \
                if op["subprojects"] else op["root"]
            if rec["cwd"] != home:
                return f"{t!r} ran in {rec['cwd']} instead of {home}"
        e = c["endings"][rec["ending"]]
        ok = ok and not e.get("signal") and e["code"] == 0
        for stream, shown in (("out", out), ("err", err)):
            if text_of(e, stream) not in shown:
                return f"the output of a process on std{stream} is not shown in full"
    want = Counter(address(op["root"], t) for t in op["tests"])
    if got != want:
        lost, extra = want - got, got - want
        return f"not run: {list(lost.items())[:3]}; run too often or invented: {list(extra.items())[:3]}"
    if (code & 255 == 0) != ok:
        return f"status {code} although the processes ended {[c['endings'][r['ending']] for r in log][:3]}"
    return None


def main(ck):
    exe, base, rng = build.core(), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(4, 20), ck.n(10, 400)):
        cases = [prepare(ck, rng, os.path.join(base, f"r{rnd}-{k}")) for k in range(24)]
        for c, (code, out, err) in zip(cases, W.pmap(lambda c: execute(exe, c), cases)):
            op, log = c["op"], W.read_log(c["log"])
            ck.case((sorted(c["files"]), op["tests"], op["n"], op["dist"], op["subprojects"]), nontrivial=len(op["tests"]) > 1,
                    sample={"tests": op["tests"][:5], "workers": op["n"], "dist": op["dist"], "processes": len(log),
                            "directories": len({r["cwd"] for r in log}), "status": code})
            ck.count("processes", len(log))
            ck.count("zero_workers", op["n"] == 0)
            bad = judge(c, code, out, err, log)
            if bad:
                ck.violation(f"{op['dist']} over {op['n']} workers, subprojects={op['subprojects']}: {bad}"[:1200],
                             {"op": op, "endings": c["endings"], "log": log, "status": code, "stderr": err.decode("utf-8", "replace")[-2000:]})
            ck.drop(c["sd"])
    c = prepare(ck, rng, os.path.join(base, "limit"))
    f = T.split(next(iter(c["op"]["tests"]), "") or T.nodes(rng, c["files"], at_most=1)[0])[0] if c["files"] else "t.py"
    c["endings"][:] = [{"code": 0}]
    json.dump({"log": c["log"], "endings": c["endings"], "pick": "args", "env": KEYS}, open(os.path.join(c["sd"], "plan.json"), "w"))
    c["op"].update(program=W.SYSPY, n=2, dist="load", subprojects=False, tests=[f"{f}::test_{'x' * 150}{i}" for i in range(30000)])
    code, out, err = execute(exe, c)
    log = W.read_log(c["log"])
    bad = judge(c, code, out, err, log)
    if bad:
        ck.violation(f"30000 tests over 2 processes: {bad}"[:600], {"status": code, "stderr": err[-600:].decode("utf-8", "replace")},
                     sig="argument-limit" if code and not log and b"too long" in out + err else None)


Check("C16", "Random project trees (nested subprojects, links, odd names), 0-120 identifiers, worker counts 0-30, all modes "
      "and an unknown one, with and without subprojects, stand-in processes that end with any status or signal and write "
      "up to 70 kB per stream, unstartable programs. Non-trivial: at least two tests; distinct by whole configuration.",
      assumptions=["the root directory option (--rootdir DIR) precedes the tests"]).main(main, 40)
