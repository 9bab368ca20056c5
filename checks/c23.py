"""C23: static collection against pytest's own collection of the same project."""
import ast
import os
import random
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import layouts
import workers as W
from clirun import Cli
from gen_project import Project, base_of
from vlib import Check, write_file


def compare(listing, nodes):
    """None, or what differs between a listing and the identifiers pytest collected."""
    want = {base_of(n) if base_of(n) in listing.unexpanded else n for n in nodes}
    got = set(listing.nodes)
    if got != want:
        return f"not listed {sorted(want - got)[:6]}, listed though pytest does not collect it {sorted(got - want)[:6]}"


def needless(p, listing):
    """Tests listed without their cases, though all cases in the project can be read."""
    if listing.unexpanded and not p.counts.get("dynamic_decorators"):
        return f"cases not expanded: {sorted(listing.unexpanded)[:4]}"


def skipped(root, listing, py):
    """None, or how the warnings about classes with constructors differ from those pytest gives."""
    want = set()
    for message, file, at in py["warned"]:
        m = re.match(r"cannot collect test class '(\w+)' because it has a __init__ constructor \(from: ([^)]*)\)", message)
        if m is None:
            return None         # of another kind
        if not os.path.samefile(file, os.path.join(root, m[2])):
            continue            # imported
        with open(file, encoding="utf-8-sig", newline="") as f:
            lines = [n.lineno for n in ast.walk(ast.parse(f.read())) if isinstance(n, ast.ClassDef) and n.name == m[1]]
        if len(lines) == 1 and m[1] != "Colour":        # (enumerations have a constructor outside the project)
            want.add((m[2], lines[0], m[1]))
    got = set()
    for line in listing.warning_lines:
        m = re.fullmatch(r"(.*):(\d+): RtestCollectionWarning: cannot collect test class '(\w+)' because it has a __init__ constructor", line)
        if m:
            got.add((os.path.relpath(os.path.join(root, m[1]), root), int(m[2]), m[3]))
    if got != want:
        return f"not warned about {sorted(want - got)[:4]}, warned about although pytest does not {sorted(got - want)[:4]}"


def one(cli, root, seed, with_args):
    rng = random.Random(seed)
    p = Project(rng, root, native=False, paths=True)
    args = p.args() if with_args else []
    # pytest forgets tests when arguments overlap, so each argument is collected alone
    py = {"nodes": [], "errors": [], "warned": []}
    configured = p.config.get("testpaths", [])
    for a in args or (configured if len(configured) > 1 else [None]):
        if a and not os.path.exists(os.path.join(root, a)):
            continue
        one = cli.pytest_collect([] if a is None else [a], root, env=p.env(cli.site))
        py["nodes"] += one["nodes"]
        py["errors"] += one["errors"]
        py["warned"] += one["warned"]
    listing = cli.listing(args, root, env=p.env(cli.site))
    return p, args, py, listing


# Projects on which static collection is known to differ from pytest, and what it lists (see known_findings.txt).
D = "import pytest\n@pytest.mark.parametrize('x', %s)\ndef test_d(x): pass\n"
KNOWN = [
    ("duplicate-ids", {"test_d.py": D % "['a', 'a', 'b']"}, ["test_d.py::test_d[a]", "test_d.py::test_d[a_1]", "test_d.py::test_d[b]"]),
    ("constant-ids", {"test_d.py": "DATA = ['p', 'q']\n" + D % "DATA"}, ["test_d.py::test_d[DATA[p]]", "test_d.py::test_d[DATA[q]]"]),
    ("int-enum-ids", {"test_d.py": "from enum import IntEnum\nclass N(IntEnum):\n    A = 1\n" + D % "[N.A]"}, ["test_d.py::test_d[N.A]"]),
    ("local-base", {"test_d.py": "class Base:\n    def test_x(self): pass\nclass TestD(Base):\n    def test_y(self): pass\n"}, ["test_d.py::TestD::test_y"]),
    ("imported-tests", {"h.py": "class TestH:\n    def test_x(self): pass\ndef test_f(): pass\n",
                        "test_d.py": "from h import TestH, test_f\ndef test_y(): pass\n"}, ["test_d.py::test_y"]),
    ("assigned-tests", {"test_d.py": "def test_a(): pass\ntest_b = test_a\nclass TestA:\n    def test_x(self): pass\nTestB = TestA\n"}, ["test_d.py::TestA::test_x", "test_d.py::test_a"]),
    ("nested-classes", {"test_d.py": "class TestA:\n    def test_x(self): pass\n    class TestB:\n        def test_y(self): pass\n"}, ["test_d.py::TestA::test_x"]),
    ("testcase-names", {"test_d.py": "import unittest\nclass Checks(unittest.TestCase):\n    def test_x(self): pass\ndef test_y(): pass\n"}, ["test_d.py::test_y"]),
]


def probes(ck, cli, base):
    for sig, files, recorded in KNOWN:
        root = os.path.join(base, sig)
        for f, t in files.items():
            write_file(os.path.join(root, f), t)
        py, listing = cli.pytest_collect([], root), cli.listing([], root)
        ck.case(sig, nontrivial=bool(py["nodes"]))
        ck.count("known_probes")
        bad = compare(listing, py["nodes"])
        if bad:
            ck.violation(f"{sig}: {bad}", {"files": files, "pytest": py, **listing.brief()},
                         sig=sig if sorted(listing.nodes) == sorted(recorded) and listing.rc == 0 else None)


def fixed(ck, cli, base):
    """The hand-written projects."""
    def one(name):
        root = os.path.join(base, "layouts", name)
        layouts.write(layouts.LAYOUTS[name], root)
        return name, root, cli.pytest_collect([], root), cli.listing([], root)

    for name, root, py, listing in W.pmap(one, [n for n in layouts.LAYOUTS if not layouts.native_only(n)]):
        ck.case(("layout", name), nontrivial=bool(py["nodes"]))
        ck.count("layouts")
        bad = (f"pytest cannot collect it: {py['errors']}" if py["errors"] else compare(listing, py["nodes"])) or skipped(root, listing, py) \
            or (f"status {listing.rc}" if listing.rc else None)
        if bad:
            ck.violation(f"layout {name}: {bad}", {"files": layouts.LAYOUTS[name], "pytest": py, **listing.brief()})


def main(ck):
    cli, base, rng = Cli(ck), ck.scratch(), ck.rng
    probes(ck, cli, base)
    fixed(ck, cli, base)
    for rnd in ck.rounds(ck.n(8, 30), ck.n(8, 400)):
        jobs = []
        for k in range(48):
            root = os.path.join(base, f"p{rnd}-{k}")
            os.makedirs(root)
            jobs.append((cli, root, rng.random(), k % 2))
        for (cli_, root, seed, _), (p, args, py, listing) in zip(jobs, W.pmap(lambda j: one(*j), jobs)):
            ck.count("pytest_rejected", bool(py["errors"]))
            bad = None
            if py["errors"]:        # the generator left the subset; nothing to compare
                ck.case(seed, nontrivial=False)
            else:
                ck.case((sorted(p.files.items()), args), nontrivial=bool(py["nodes"]),
                        sample={"args": args, "config": p.config, "files": sorted(p.files)[:8], "nodes": py["nodes"][:6]})
                ck.count("nodes", len(py["nodes"]))
                ck.count("constructors", len(py["warned"]))
                ck.count("unexpanded", len(listing.unexpanded))
                ck.count("files", len(p.files))
                for k, v in p.counts.items():
                    ck.count(k, v)
                bad = compare(listing, py["nodes"]) or needless(p, listing) or skipped(root, listing, py) or (f"status {listing.rc}" if listing.rc else None)
            if bad:
                ck.violation(f"{args} {p.config}: {bad}", {"root": root, "args": args, "config": p.config, "files": p.files,
                                                           "pytest": py, **listing.brief()})
            for d in [root, *p.paths]:
                ck.drop(d)
    if ck.counts.get("pytest_rejected", 0) > ck.evals * 0.2:
        print("C23: note: many generated projects were rejected by pytest")


if __name__ == "__main__":
    Check("C23", "Random projects of the supported subset (packages, helper modules, all import forms, multiple and "
          "generic inheritance, re-exports, overridden, disabled and redefined tests, constructors, case decorators on "
          "functions, methods and classes, configured patterns and test paths, links, excluded directories), with and "
          "without path arguments, listed by `rtest --collect-only` and by pytest itself. Non-trivial: pytest collects "
          "something; distinct by files and arguments.",
          assumptions=["the supported subset is the generator's (see DESIGN.md)",
                       "the parser is the stand-in for ruff's, built on CPython's grammar"]).main(main, 100)
