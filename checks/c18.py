"""C18: worker count resolution (reference model over parsed command lines, under varying processor affinity)."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
from vlib import Check, Driver

U64 = 2 ** 64


def requested(text, cpus):
    """The count a spelling asks for; None if it must be rejected; 'any' where either is acceptable."""
    if text is None:
        return 1
    if text == "auto":
        return cpus["physical"]
    if text == "logical":
        return cpus["logical"]
    if re.fullmatch(r"[0-9]+", text, re.A):
        return int(text) if int(text) < U64 else None
    if re.fullmatch(r"\+[0-9]+", text, re.A):
        return "any"
    return None


TEXTS = ["auto", "logical", "0", "1", "2", "3", "4", "7", "8", "16", "64", "100", "1000", "65536", "4294967295", "4294967296",
         "4294967297", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "007", "00", "+3", "-1", "-0",
         " 4", "4 ", "4.0", "4.5", "1e3", "0x10", "0b1", "1_000", "1,000", "", " ", "Auto", "AUTO", "LOGICAL", "Logical", "aut", "autoo",
         "physical", "max", "none", "None", "true", "四", "٤", "²", "4\n", "\t4", "nan", "inf", "4x", "x4", "4 4", "auto ", " auto", "2*2"]
CAPS = [None, 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 63, 64, 100, 1000, 4294967296, 18446744073709551615]
BAD_CAPS = ["-1", "x", "", "1.5", "auto", "18446744073709551616", " 3"]


def argv_for(rng, text, cap):
    parts = []
    if text is not None:
        form = rng.randrange(4)
        if text.startswith("-") or text == "" or form == 0:
            parts.append([rng.choice(["--numprocesses=", "-n="]) + text])
        elif form == 1:
            parts.append([rng.choice(["-n", "--numprocesses"]), text])
        elif form == 2:
            parts.append(["-n" + text])
        else:
            parts.append(["--numprocesses=" + text])
    if cap is not None:
        parts.append(rng.choice([["--maxprocesses", str(cap)], [f"--maxprocesses={cap}"]]))
    for opt in ([["--collect-only"]], rng.choice([[["--runner", "native"]], [["--runner=pytest"]]]), [["--dist", "loadfile"]], [["-e", "A=1"]],
                [["--env=B=2"]], [["tests"]], [["a.py"], ["b.py"]]):
        if rng.random() < 0.25:
            parts += opt
    rng.shuffle(parts)
    return [x for p in parts for x in p]


def main(ck):
    exe, rng = build.core(), ck.rng
    cpus_all = sorted(os.sched_getaffinity(0))
    for _ in ck.rounds(ck.n(3, 12), ck.n(3, 60)):
        allowed = cpus_all if _ == 0 else rng.sample(cpus_all, rng.randrange(1, len(cpus_all) + 1))
        os.sched_setaffinity(0, allowed)
        d = Driver(exe)
        os.sched_setaffinity(0, cpus_all)
        cpus = d.call(op="cpus")
        ck.count(f"affinity_sets_logical_{cpus['logical']}_physical_{cpus['physical']}")
        if cpus["logical"] > len(allowed):
            ck.violation("more logical processors than the process may use", {"allowed": allowed, "cpus": cpus})
        pairs = [(t, c) for t in [None] + TEXTS for c in CAPS]
        pairs += [(str(rng.randrange(0, 10 ** rng.randrange(1, 20))), rng.choice(CAPS + [rng.randrange(0, 10 ** 6)])) for _ in range(400)]
        for text, cap in pairs:
            argv = argv_for(rng, text, cap)
            r = d.call(op="args", argv=argv)
            want = requested(text, cpus)
            ck.case((tuple(argv), tuple(allowed)), nontrivial=text is not None or cap is not None,
                    sample={"argv": argv, "reply": {k: v for k, v in r.items() if k in ("count", "nproc_error", "usage")},
                            "processors": cpus})
            if want == "any":
                if "count" in r and r["count"] != min(int(text[1:]), cap if cap is not None else U64):
                    ck.violation(f"{argv}: count {r['count']}", {"argv": argv, "reply": r})
            elif want is None:
                ck.count("rejections_expected")
                if "count" in r:
                    ck.violation(f"{text!r} accepted as a number of processes: {r['count']}", {"argv": argv, "reply": r})
            else:
                want = want if cap is None else min(want, cap)
                if r.get("count") != want:
                    ck.violation(f"{argv}: {r.get('count', r)} workers, {want} expected", {"argv": argv, "reply": r, "cpus": cpus})
        for c in BAD_CAPS:
            r = d.call(op="args", argv=["--maxprocesses=" + c])
            ck.case(("badcap", c))
            if "count" in r:
                ck.violation(f"cap {c!r} accepted", {"cap": c, "reply": r})
        d.close()


Check("C18", "Every listed spelling of the number of processes x every listed cap plus random numbers, in random option order and "
      "spelling, under several processor affinity sets. Non-trivial: a number or a cap is given; distinct by (command line, affinity).",
      assumptions=["the numbers of physical and logical processors are those the num_cpus crate reports in the same process"]).main(main, 500)
