"""C02: sharding of a native run (offline checker over what every launched stand-in worker was told)."""
import json
import os
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import scripted as S
import workers as W
from vlib import Check, base_env, run

NAMES = ["test_{}.py", "sub dir/test_{}.py", "-dash/test_{}.py", "é/test_中{}.py", "--root/test_{}.py", "a/b/c/d/{}_test.py",
         "test_{}'q\".py", "test_$({}).py", "--/test_{}.py", "test_[{}].py", "--out={}_test.py"]
CLASSES = [["Test*"], ["Test*", "*Spec"], ["[A-Z]*"], ["Check*", "Te?t"], ["*"], [], ["", "Test"], [" Test", "Spec "], ["Test*", "Test*"], ["É*", "a b"], [f"C{i}*" for i in range(300)]]
FUNCTIONS = [["test*"], ["test_*", "it_*"], ["*_should_*"], ["check", "test*"], ["*"], [], [""], [" test", "it "], ["test*", "", "test*"], ["tést*", "[!_]*"], [f"f_{i}" for i in range(70)]]
ENV = {"RTV_KEPT": "ü = '\"\n$x ", "RTV_EMPTY": "", "LANG": "rtv"}

MORE = [{}, {}, {"PYTEST_ADDOPTS": "-q"}, {"COVERAGE_PROCESS_START": "x", "NO_COLOR": "1"}, {"RUST_LOG": "off", "VIRTUAL_ENV": "/v"}, {"CI": "true", "HOME": "/nonexistent/é"}]


def native(exe, op, sd, env, timeout=180):
    cfg, codef = os.path.join(sd, "op.json"), os.path.join(sd, "op.code")
    json.dump({"python_files": ["*.py"], **op, "code_file": codef}, open(cfg, "w"))
    rc, out, err = run([exe, "native", cfg], env=env, cwd=sd, timeout=timeout)
    code = int(open(codef).read()) & 255 if os.path.exists(codef) else None
    return code, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def judge(op, code, log, env):
    files = op["files"]
    if not files:
        return "workers were launched without files" if log else None if code == 0 else f"status {code} without any file"
    if code != 0 and not any(r["end"] for r in log):
        return f"status {code} though every worker delivered a clean report"
    got = Counter(f for r in log for f in r["files"])
    if got != Counter(files):
        return f"not handed out: {list((Counter(files) - got).items())[:3]}; too often: {list((got - Counter(files)).items())[:3]}"
    if len(log) > max(1, op["n"]) or len(log) > len(files):
        return f"{len(log)} workers launched for {len(files)} files, {op['n']} requested"
    sizes = [len(r["files"]) for r in log]
    if max(sizes) - min(sizes) > 1:
        return f"numbers of files per worker: {sorted(sizes)}"
    place = {f: i for i, f in enumerate(files)}
    outs = set()
    for r in log:
        order = [place[f] for f in r["files"]]
        if order != sorted(order):
            return f"listed order not kept within a worker: {order[:10]}"
        if r["root"] != op["root"] or r["cwd"] != op["root"]:
            return f"worker told root {r['root']}, working in {r['cwd']}, instead of {op['root']}"
        if not env.items() <= r["env"].items():
            return f"worker started in an environment without {dict(env.items() - r['env'].items())}"
        if r["classes"] != (op["python_classes"] or ["Test*"]) or r["functions"] != (op["python_functions"] or ["test*"]):
            return f"worker told patterns {r['classes']} {r['functions']}"
        outs.add(r["out"])
    if len(outs) != len(log):
        return "two workers were given the same report file"
    return None


def main(ck):
    exe, base, rng = build.core(), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(4, 20), ck.n(12, 300)):
        cases = []
        for k in range(16):
            sd = os.path.join(base, f"r{rnd}-{k}")
            root = os.path.join(sd, rng.choice(["root", "r ö", "-r"]))
            os.makedirs(root)
            count = rng.choice([0, 1, 2, 3, 5, 8, 17, 40, 150]) if k else rng.choice([257, 300, 520, 700, 1290] if rnd != 1 else [9000, 12000])
            files = []
            for i in range(count):
                files.append(os.path.join(root, rng.choice(NAMES).format(i)))
            if rng.random() < 0.4:      # equal names in different directories
                files = [os.path.join(root, f"d{i}", f"test_{rng.randrange(3)}.py") for i in range(count)]
            if rng.random() < 0.5:
                rng.shuffle(files)
            n = rng.choice([0, 1, 2, 3, 4, 7, 8, 16, count, count + 1, max(0, count - 1), 1000])
            many = (k, rnd) == (1, 1) or rng.random() < 0.003
            if many:
                count = rng.choice([130, 150, 270])
                files = [os.path.join(root, rng.choice(NAMES).format(i)) for i in range(count)]
            n = rng.choice([count, count - 1, 1000]) if many else rng.choice([1, 2]) if count > 2000 else rng.choice([3, 5, 6, 7, 11, 40]) if count > 150 else min(n, 40) if count > 40 else n
            plan = os.path.join(sd, "plan.json")
            ends = {f: {"results": [], "end": S.make_ending(rng, rng.choice(["flaky", "early", "late", "killed_before", "cut"]))}
                    for f in rng.sample(files, min(len(files), rng.choice([0, 0, 1, 2])))}
            json.dump({"log": os.path.join(sd, "log"), "files": ends}, open(plan, "w"))
            cases.append((sd, plan, {"python": W.fake_python(sd), "root": root, "n": n, "files": files,
                                     "python_classes": rng.choice(CLASSES), "python_functions": rng.choice(FUNCTIONS)}))
        envs = [base_env("/nonexistent", {"RTV_PLAN": c[1], "TMPDIR": c[0], **ENV, **rng.choice(MORE)}) for c in cases]
        done = W.pmap(lambda c: native(exe, c[0][2], c[0][0], c[1]), list(zip(cases, envs)), jobs=3)
        for (sd, plan, op), env, (code, out, err) in zip(cases, envs, done):
            log = W.read_log(os.path.join(sd, "log"))
            ck.case((len(op["files"]), op["n"], [os.path.relpath(f, op["root"]) for f in op["files"]], op["python_classes"],
                     op["python_functions"]), nontrivial=len(op["files"]) > 1,
                    sample={"files": len(op["files"]), "requested": op["n"], "shards": sorted(len(r["files"]) for r in log)})
            ck.count("workers", len(log))
            ck.count("workers_ending_badly", sum(r["end"] is not None for r in log))
            ck.count("files", len(op["files"]))
            bad = judge(op, code, log, env)
            if bad:
                ck.violation(f"{len(op['files'])} files over {op['n']} workers: {bad}"[:1200], {"op": op, "log": log, "stderr": err[-1500:]})
            ck.drop(sd)
    sd = os.path.join(base, "limit")
    root = os.path.join(sd, "r" * 60)
    os.makedirs(root)
    json.dump({"log": os.path.join(sd, "log"), "files": {}}, open(os.path.join(sd, "plan.json"), "w"))
    files = [os.path.join(root, f"test_{i}.py") for i in range(30000)]
    op = {"python": W.fake_python(sd), "root": root, "n": 1, "files": files, "python_classes": [], "python_functions": []}
    env = base_env("/nonexistent", {"RTV_PLAN": os.path.join(sd, "plan.json"), "TMPDIR": sd})
    code, out, err = native(exe, op, sd, env)
    log = W.read_log(os.path.join(sd, "log"))
    bad = judge(op, code, log, {})
    if bad:
        ck.violation(f"30000 files over one worker: {bad}"[:600], {"status": code, "stderr": err[-600:]},
                     sig="argument-limit" if not log and code and "too long" in err else None)
    ck.drop(sd)


if __name__ == "__main__":
    Check("C02", "Lists of 0-12000 files with names that look like options, contain spaces, quotes, shell syntax or non-ASCII, "
          "in any order, worker counts 0 to 1000, pattern lists (also empty: the worker's defaults apply), workers that end badly. Non-trivial: at "
          "least two files; distinct by file list, count and patterns.",
          assumptions=["a worker is told through its documented options (--root, --out, --python-classes, "
                       "--python-functions, -- files), which the repository's tests fix"]).main(main, 30)
