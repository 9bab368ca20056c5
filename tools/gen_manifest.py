#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate it)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": (
        "runtime monitoring of native runs under injected worker faults",
        "fault_enumeration",
        "Worker endings (exit, signal, unstartable) x report states are enumerated singly and sampled in combination; real processes, scripted workers, and real workers killed by their tests.",
    ),
    "C02": (
        "runtime monitoring: exactly-once checker over what launched processes recorded",
        "exploration",
        "Trusts the stand-in worker's record of its arguments.",
    ),
    "C03": (
        "metamorphic runtime monitoring over worker counts and injected delays",
        "exploration",
        "Suites are generated independent by construction; the real worker runs them.",
    ),
    "C04": (
        "conservation monitor over scripted reports",
        "exploration",
        "Assumes the four outcomes and the form of the summary's last line.",
    ),
    "C05": (
        "runtime monitoring of the worker against bodies of known outcome",
        "exploration",
        "The outcome of every body kind is part of the model.",
    ),
    "C06": (
        "runtime monitoring against a reference model of name selection",
        "exploration",
        "The model uses Python's own MRO and fnmatchcase on shadow classes.",
    ),
    "C07": (
        "trace-specification monitor over the hooks' event log",
        "exploration",
        "Events are logged by the generated classes themselves.",
    ),
    "C08": (
        "conservation monitor over everything written",
        "exploration",
        "Text written through Python's streams only.",
    ),
    "C09": (
        "runtime monitoring of sets of sound and broken files",
        "exploration",
        "Helper modules have names of their own.",
    ),
    "C10": (
        "runtime monitoring of calls against the cartesian product",
        "exploration",
        "Arguments are compared by identity; ids in full where no two coincide.",
    ),
    "C11": (
        "event-log monitor against a model of markers",
        "exploration",
        "Where several markers of equal rank apply any of their reasons is accepted.",
    ),
    "C12": (
        "online reference-model monitor of the context manager",
        "exploration",
        "isinstance and re.search are the oracle.",
    ),
    "C13": (
        "conservation monitor over the schedulers' batches",
        "exploration",
        "The public scheduler interface is driven directly; no concurrency is involved.",
    ),
    "C14": (
        "grouping and balance monitor over the schedulers' batches",
        "exploration",
        "Scopes and files of identifiers are known by construction.",
    ),
    "C15": (
        "runtime monitoring of the process pool with recording stand-ins",
        "exploration",
        "Stand-ins record arguments, environment and directory; schedules vary by delays and output volume.",
    ),
    "C16": (
        "runtime monitoring: exactly-once checker over what pytest processes recorded",
        "exploration",
        "Stand-in pytest; endings injected.",
    ),
    "C17": (
        "runtime monitoring against an independent model of project trees on disk",
        "exploration",
        "os.path.realpath is the oracle for files.",
    ),
    "C18": (
        "runtime monitoring of option parsing against a reference model",
        "exploration",
        "Processor counts are read independently of the program.",
    ),
    "C19": (
        "differential runtime monitoring against an independent TOML reader",
        "exploration",
        "tomllib is the oracle.",
    ),
    "C20": (
        "differential runtime monitoring against an independent tree walk",
        "exploration",
        "fnmatch is the oracle for patterns.",
    ),
    "C21": (
        "resource monitor: files and processes before and after faulty runs",
        "fault_enumeration",
        "Looks at the run's temporary directory, the project and the process group's descendants.",
    ),
    "C22": (
        "runtime monitoring of what a stand-in pytest recorded",
        "exploration",
        "Endings enumerated: statuses, signals, unstartable programs.",
    ),
    "C23": (
        "differential runtime monitoring of static collection against pytest's own",
        "exploration",
        "pytest 8 collecting the same random project is the oracle; ruff's parser is replaced by a stand-in on CPython's grammar (the submodule is empty here).",
    ),
    "C24": (
        "runtime monitoring of collection under injected broken files",
        "fault_enumeration",
        "CPython's compile() decides what is broken; same stand-in parser.",
    ),
    "C25": (
        "file-system, process and execution-log monitor around collection",
        "exploration",
        "Bodies, imports and definitions of the generated modules log themselves; a stand-in interpreter records launches.",
    ),
    "C26": (
        "differential runtime monitoring of listing against native execution",
        "exploration",
        "The real worker's reports are compared with the listing as multisets.",
    ),
    "C27": (
        "event-log monitor over complete command-line runs, pytest as oracle for its runner",
        "exploration",
        "Bodies log themselves; what ran is compared with summary, status, listing and pytest.",
    ),
    "C28": (
        "runtime monitoring of run_tests with recording stand-ins, pytest as oracle",
        "exploration",
        "Flags are generated with their values attached.",
    ),
}
NOT_YET = {}
for pid, why in {
    "C23": "full build of the extension",
    "C24": "full build of the extension",
    "C25": "full build of the extension",
    "C26": "full build of the extension",
    "C28": "full build of the extension",
    "C27": "full build of the extension",
}.items():
    if not os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        NOT_YET[pid] = (
            "no check yet: the code behind it needs the ruff crates, which are an empty submodule here, so it "
            "compiles only against a stand-in for them"
        )

checks = []
for pid, (tech, level, note) in TECH.items():
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"python3 checks/{pid.lower()}.py",
            "thorough_cmd": f"VERIF_TIER=thorough python3 checks/{pid.lower()}.py",
            "evidence_file": f"evidence/{pid}.json",
            "technique": tech,
            "level": level,
            "level_note": note,
        }
    )
M = {
    "version": 1,
    "setup_cmd": "python3 lib/build.py core py full",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_YET.items()],
    "notes": "No hooks: everything is observed through public interfaces, recorded processes and generated test modules. "
    "Every check builds what it needs from /repo's working tree into /verif/build (ignored by git).",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
