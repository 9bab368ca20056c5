"""C17: subproject grouping and re-addressing, against an oracle that follows the real files."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import gen_tree as T
from vlib import Check, Driver


def main(ck):
    d, base, rng = Driver(build.core()), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(300, 2000), ck.n(900, 12000)):
        root = os.path.join(base, f"p{rnd}", rng.choice(["root", "ro ot", "é"]))
        os.makedirs(root)
        files = T.subproject_tree(rng, root)
        if rng.random() < 0.2:      # a file that links to outside the project, in a project of its own
            out = os.path.join(base, f"p{rnd}", "outside")
            os.makedirs(out)
            open(os.path.join(out, "pyproject.toml"), "w").close()
            open(os.path.join(out, "test_o.py"), "w").close()
            os.symlink(os.path.join(out, "test_o.py"), os.path.join(root, "test_out.py"))
            files.append("test_out.py")
        if rng.random() < 0.2:
            files.append("gone/test_missing.py")
        nodes = T.nodes(rng, files)
        if rng.random() < 0.2 and nodes:
            nodes.append(nodes[0])
        r = d.call(op="group", root=root, nodes=nodes)
        want = {}
        for n in nodes:
            want.setdefault(T.nearest_project(root, T.split(n)[0]), []).append(n)
        links = sum(os.path.islink(os.path.join(root, f)) or "/ln" in "/" + f for f in files)
        ck.case((sorted(files), nodes, sorted(os.path.relpath(k, root) for k in want)), nontrivial=len(want) > 1 or links > 0,
                sample={"nodes": nodes[:6], "groups": {os.path.relpath(k, root): len(v) for k, v in want.items()}})
        ck.count("groups", len(want))
        ck.count("linked_files", links)
        replay = {"root": root, "nodes": nodes, "want": want, "reply": r,
                  "projects": [os.path.relpath(p, root) for p, _, fs in os.walk(root) if "pyproject.toml" in fs]}
        bad = None
        if "groups" not in r:
            bad = f"no answer: {r}"
        else:
            got = {}
            for g in r["groups"]:
                if g["tests"]:
                    got[g["root"]] = g["tests"]
            if got != want:
                bad = f"groups {({os.path.relpath(k, root): v for k, v in got.items()})} instead of " \
                      f"{({os.path.relpath(k, root): v for k, v in want.items()})}"
            else:
                for g in r["groups"]:
                    if len(g["relative"]) != len(g["tests"]):
                        bad = "re-addressing changed the number of tests"
                    for a, b in zip(g["tests"], g["relative"]):
                        (fa, pa), (fb, pb) = T.split(a), T.split(b)
                        here, there = os.path.join(root, fa), os.path.join(g["root"], fb)
                        if pa != pb or (os.path.exists(here) and not (os.path.exists(there) and os.path.samefile(here, there))):
                            bad = f"{a!r} re-addressed for {os.path.relpath(g['root'], root)!r} as {b!r}"
        if bad:
            ck.violation(bad[:1200], replay)
        ck.drop(os.path.join(base, f"p{rnd}"))


Check("C17", "Random directory trees, some dozens of levels deep, with project files at any depth (some links, also dangling), test "
      "files, links to files and directories inside and outside the root, odd names, identifiers whose case ids contain "
      "'::', slashes and dots. Non-trivial: more than one group or some link; distinct by files, identifiers and groups.",
      assumptions=["no directory or file name contains '::', which test identifiers cannot express"]).main(main, 150)
