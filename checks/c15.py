"""C15: the process pool (offline checker over what each stand-in process recorded and what the pool returned)."""
import json
import os
import signal
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import workers as W
from vlib import Check, Driver, base_env, write_file
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "runtime"))
import rtv_standin

KEYS = ["RTV_A", "RTV_B", "RTV_OVER", "PATH", "HOME", "PYTHONPATH", "TMPDIR", "PYTEST_ADDOPTS", "lower_case", "RTV.DOT-x", "É"]


def some_keys(rng, k):
    """Names for k environment additions: mostly few, so that they meet."""
    return [rng.choice(KEYS[:3] if rng.random() < 0.4 else KEYS) for _ in range(k)]


SIGNALS = [signal.SIGKILL, signal.SIGTERM, signal.SIGSEGV, signal.SIGABRT, signal.SIGHUP, signal.SIGINT]
ODD = ["plain", "with space", "-dash", "--flag=v", "quo\"te'", "$HOME", "*", "a;b|c", "é中", "", "line\nbreak", "::x[1]",
       "\\back", "tab\t", "/a:/b c", "%s", "{}", "x" * 3000]


def outputs(rng, tag, big):
    out = []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        size = rng.choice([0, 1, 50, 4000, 70000] + ([400_000, 3_000_000] if big else []))
        out.append([rng.choice(["out", "err"]), f"{tag}{len(out)}", size])
    if rng.random() < 0.15:
        out.append([rng.choice(["out", "err"]), "hex", rng.choice(["ff", "c3", "80410a", "e4b8", "f09f98", "00", "610062", "0d0a", "0d", "1b5b6d", "efbbbf"])])
    return out


def ending(rng, tag, big):
    e = {"out": outputs(rng, tag, big), "code": rng.choice([0, 0, 1, 2, 3, 4, 5, 77, 100, 126, 127, 128, 137, 254, 255,
                                                            rng.randrange(256)])}
    if rng.random() < 0.25:
        e["signal"] = int(rng.choice(SIGNALS))
    if rng.random() < 0.4:
        e["first_sleep"] = rng.choice([0.0, 0.01, 0.05, 0.15])
    if rng.random() < 0.3:
        e["sleep"] = rng.choice([0.0, 0.005, 0.02])
    return e


def bytes_of(e, stream):
    return b"".join(rtv_standin.expand(c) for c in e["out"] if c[0] == stream)


def text_of(e, stream):
    return bytes_of(e, stream).decode("utf-8", "replace")


def same_number(ck, d, base, rng):
    """Tasks of one number: each still has a result of its own."""
    tasks, texts = [], []
    for k in range(rng.choice([2, 3, 7])):
        plan = os.path.join(base, f"same{k}")
        e = {"out": [["out", f"same{k}", 20]], "code": 0, "first_sleep": rng.choice([0.0, 0.02])}
        json.dump({"log": os.path.join(base, "samelog"), "endings": [e], "env": []}, open(plan, "w"))
        tasks.append({"id": rng.choice([4, 4, 5]), "program": W.SYSPY, "initial_args": W.standin_args(plan), "tests": [], "pytest_args": [],
                      "dir": None, "env": []})
        texts.append((tasks[-1]["id"], text_of(e, "out")))
    r = d.call(_timeout=120, op="pool", tasks=tasks)
    got = [(x["id"], x["stdout"]) for x in r.get("results", [])]
    ck.case(("same", [t["id"] for t in tasks]), nontrivial=True)
    if sorted(got) != sorted(texts) or [i for i, _ in got] != sorted(i for i, _ in got):
        ck.violation(f"tasks {[t['id'] for t in tasks]} have the results {[i for i, _ in got]}", {"tasks": tasks, "results": r})


def main(ck):
    base = ck.scratch()
    d_env = base_env("/nonexistent", {"RTV_INHERITED": "from-parent", "RTV_OVER": "parent"})
    d = Driver(build.core(), env=d_env, cwd=base)
    rng = ck.rng
    noexec = os.path.join(base, "noexec")
    write_file(noexec, "not a program")
    for _ in range(ck.n(3, 20)):
        same_number(ck, d, base, rng)
    for rnd in ck.rounds(ck.n(12, 60), ck.n(28, 400)):
        sd = os.path.join(base, f"r{rnd}")
        os.makedirs(sd)
        many = rnd % 20 == 1
        ids = rng.sample(range(rng.choice([400, 400, 70000, 2 ** 40])), 300 if many else rng.choice([0, 1, 2, 3, 5, 8, 13, 24]) if rnd else 24)
        if rng.random() < 0.4:
            ids.sort(reverse=rng.random() < 0.5)
        tasks, want = [], {}
        for i in ids:
            plan = os.path.join(sd, f"plan{i}.json")
            e = ending(rng, f"t{i}-", big=rng.random() < 0.25 and not many)
            kind = rng.choice(["run"] * 9 + ["missing", "noexec", "isdir", "baddir"])
            wd = None
            if rng.random() < 0.6:
                wd = os.path.join(sd, rng.choice(["work", "wörk dir", "-w"]) + str(i))
                os.makedirs(wd)
            env = [[key, rng.choice(ODD)] for key in some_keys(rng, rng.randrange(4))]
            initial = W.standin_args(plan) + rng.sample(ODD, rng.randrange(3))
            tests = [rng.choice(ODD) + str(k) for k in range(rng.choice([0, 1, 3, 40]))]
            extra = rng.sample(ODD, rng.randrange(3))
            json.dump({"log": os.path.join(sd, f"log{i}"), "endings": [e], "env": [*KEYS, "RTV_INHERITED"]},
                      open(plan, "w"))
            program = W.SYSPY
            if kind == "missing":
                program = os.path.join(sd, "no-such-program")
            elif kind == "noexec":
                program = noexec
            elif kind == "isdir":
                program = sd
            elif kind == "baddir":
                wd = os.path.join(sd, f"no-such-dir{i}")
            tasks.append({"id": i, "program": program, "initial_args": initial, "tests": tests, "pytest_args": extra,
                          "dir": wd, "env": env})
            want[i] = (kind, e, initial, tests, extra, wd, env)
        r = d.call(_timeout=120, op="pool", tasks=tasks)
        replay = {"tasks": [{**t, "kind": want[t["id"]][0], "ending": want[t["id"]][1]} for t in tasks]}
        ck.case((rnd, ids, [want[i][0] for i in ids]), nontrivial=len(ids) > 1,
                sample={"tasks": len(ids), "ids": ids[:8], "kinds": [want[i][0] for i in ids][:8],
                        "endings": [want[i][1] for i in ids][:2]})
        ck.count("tasks", len(ids))
        if "timeout" in r:
            ck.violation("waiting for the tasks did not finish within 120 s", replay)
            continue
        if "results" not in r:
            ck.violation(f"the pool failed: {json.dumps(r)[:300]}", replay)
            continue
        got = r["results"]
        if [x["id"] for x in got] != sorted(ids):
            ck.violation(f"results for {[x['id'] for x in got]}, tasks were {sorted(ids)}", replay)
            continue
        for x in got:
            kind, e, initial, tests, extra, wd, env = want[x["id"]]
            log = W.read_log(os.path.join(sd, f"log{x['id']}"))
            bad = None
            if kind != "run":
                ck.count("unstartable")
                if x["code"] == 0:
                    bad = f"a task that could not start ({kind}) has status 0"
                elif log:
                    bad = "a task that could not start ran"
            else:
                if len(log) != 1:
                    bad = f"the task's process ran {len(log)} times"
                elif e.get("signal"):
                    ck.count("killed")
                    if x["code"] == 0:
                        bad = "a killed task has status 0"
                elif x["code"] != e["code"]:
                    bad = f"status {x['code']}, the process ended with {e['code']}"
                if not bad:
                    for stream in ("out", "err"):
                        t = text_of(e, stream)
                        g = x["stdout" if stream == "out" else "stderr"]
                        ck.count(f"{stream}_bytes", len(t))
                        if g != t:
                            k = next((j for j, (p, q) in enumerate(zip(g, t)) if p != q), min(len(g), len(t)))
                            bad = f"std{stream}: got {len(g)} characters, written {len(t)}, first difference at {k}"
                            break
                if not bad:
                    rec = log[0]
                    # the stand-in's own leading arguments are consumed by the interpreter and the stand-in
                    lead = initial[4:]
                    forms = [lead + tests + extra] if wd is None else \
                        [lead + ["--rootdir", wd] + tests + extra, lead + ["--rootdir=" + wd] + tests + extra]
                    expect_env = {k: d_env.get(k) for k in [*KEYS, "RTV_INHERITED"]}
                    for k, v in env:
                        expect_env[k] = v
                    if rec["argv"] not in forms:
                        bad = f"arguments {rec['argv'][:12]} instead of {forms[0][:12]}"
                    elif rec["cwd"] != (wd or base):
                        bad = f"working directory {rec['cwd']} instead of {wd or base}"
                    elif rec["env"] != expect_env:
                        bad = f"environment {rec['env']} instead of {expect_env}"
            if bad:
                ck.violation(f"task {x['id']}: {bad}", {**replay, "task": x["id"]})


if __name__ == "__main__":
    Check("C15", "Task sets of 0 to 300 concurrent stand-in processes with task numbers in any order (also the same twice), outputs of 0 bytes to "
          "several megabytes on both streams (also invalid UTF-8), random delays, exit statuses 0-255, six signals, "
          "programs and directories that do not exist. Non-trivial: at least two tasks; distinct by numbers and kinds.",
          assumptions=["bytes that are not UTF-8 are shown as replacement characters",
                       "the root directory option (--rootdir DIR) precedes the tests if a working directory is given",
                       "not returning within 120 s, over a hundred times the usual duration, counts as never"]
          ).main(main, 6)
