"""C20: test file selection, against an independent walk of the same tree."""
import atexit
import fnmatch
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
from vlib import Check, Driver

DIRS = ["a", "b", "tests", "a-b", "a.b", "é dir", ".hidden", "__pycache__", ".git", "build", "dist", "venv", "node_modules",
        "x.egg", "CVS", "_darcs", "Build", "x.egg-info", "my.eggs", "venv2", "node_modules2", "distx", "cvs", "_darcs2", "{arch}", "{arch}s", "builds", "pycache", "__pycache__2", "test_dir.py", "-d", "unit"]
FILES = ["test_a.py", "test_A.py", "TEST_a.py", "test_b.py", "a_test.py", "_test.py", "test_.py", "test.py", "tests.py", "testa.py", "conftest.py",
         "Test_a.py", "test_a.PY", "test_a.pyc", "test_a.py.bak", "test_a.txt", "xtest_a.py", "check_a.py", "a_spec.py",
         ".test_h.py", "test_[.py", "te[x_test.py", "at[.py", "te[st[.py", ".h_test.py", "test_é.py", "test a.py", "test_a", "py", ".py", "test_[x].py", "a_tests.py", "x\\test_a.py", "test_b\\c.py", "a\\b_test.py"]
PATTERNS = [["test_*.py", "*_test.py"], ["*.py"], ["check_*.py"], ["*_spec.py", "test_a.py"], ["test_?.py"], ["[ct]*_a.py"],
            ["*test*"], ["test_*"], ["test*.py", "test*.py"], ["*"], ["[!t]*.py"], ["nothing"], [],
            # not well-formed, so the bracket stands for itself
            ["*[.py"], ["te[*"], ["*t[*"], ["test_[.py"], ["t[", "test_a.py"]]
SKIPPED = ["__pycache__", "*.egg", ".*", "_darcs", "build", "CVS", "dist", "node_modules", "venv", "{arch}"]


def make_tree(rng, root):
    dirs = [""]
    for _ in range(rng.randrange(0, 10)):
        d = os.path.join(rng.choice(dirs), rng.choice(DIRS))
        if d not in dirs and d.count("/") < 5:
            os.makedirs(os.path.join(root, d))
            dirs.append(d)
    if rng.random() < 0.05:     # far down
        d = os.path.join(rng.choice(dirs), *(rng.choice(["x", "y"]) for _ in range(rng.choice([12, 30, 70]))))
        os.makedirs(os.path.join(root, d), exist_ok=True)
        dirs.append(d)
    files = []
    if rng.random() < 0.03:     # and many
        files += [os.path.join(dirs[-1], f"test_{k}.py") for k in range(rng.choice([300, 1500]))]
        for f in files:
            open(os.path.join(root, f), "w").close()
    for d in dirs:
        for f in rng.sample(FILES, rng.choice([0, 1, 2, 5])):
            open(os.path.join(root, d, f), "w").close()
            files.append(os.path.join(d, f))
        if rng.random() < 0.04:     # nothing to read a test from
            special = os.path.join(d, rng.choice(["test_p.py", "p_test.py"]))
            os.mkfifo(os.path.join(root, special))
            files.append(special)
    for k in range(rng.choice([0, 0, 1, 2, 3])):
        d = rng.choice(dirs)
        kind = rng.choice(["file", "dir", "broken", "cycle"])
        name = rng.choice(["ln", "test_ln"]) + str(k) + (".py" if kind != "dir" or rng.random() < 0.2 else "")
        # a link to a directory further up would let a walk that starts below it come by twice
        far = [x for x in dirs if x and not (d + "/").startswith(x + "/")] or [d]
        if kind == "dir" and far == [d]:
            kind = "cycle"
        target = {"file": rng.choice(files) if files else "none", "dir": rng.choice(far), "broken": "none", "cycle": d}[kind]
        os.symlink(os.path.join(root, target) if target != "" else root, os.path.join(root, d, name))
        if kind == "dir" and any(comes_by_twice(os.path.join(root, x)) for x in dirs):
            os.unlink(os.path.join(root, d, name))
            continue
        (files if kind == "file" else dirs if kind == "dir" else []).append(os.path.join(d, name))
    return dirs, files


def comes_by_twice(d, chain=()):
    """Whether links lead a walk from d down to a directory it is in already, other than by a link to that directory."""
    key = os.stat(d).st_ino
    if key in chain:
        return not os.path.islink(d)
    return any(comes_by_twice(os.path.join(d, n), (*chain, key)) for n in os.listdir(d) if os.path.isdir(os.path.join(d, n)))


def below(d, chain=()):
    st = os.stat(d)
    key = (st.st_dev, st.st_ino)
    if key in chain:
        return
    for name in os.listdir(d):
        p = os.path.join(d, name)
        if os.path.isdir(p):
            if not any(fnmatch.fnmatchcase(name, s) for s in SKIPPED):
                yield from below(p, chain + (key,))
        elif os.path.isfile(p):
            yield p


def expected(root, args, patterns):
    found = set()
    for a in args or ["."]:
        p = os.path.abspath(os.path.join(root, a))
        if os.path.isdir(p):
            found.update(below(p))
        elif os.path.isfile(p):
            found.add(p)
    sel = [p for p in found if os.path.splitext(p)[1] == ".py" and
           any(fnmatch.fnmatchcase(os.path.basename(p), x) for x in patterns)]
    return sorted(sel, key=lambda p: [c.encode() for c in p.split("/")])


def spell(rng, root, rel):
    forms = [rel or ".", rel or ".", os.path.join(root, rel) if rel else root, "./" + rel if rel else "./"]
    if rel and "ln" not in rel:
        forms += [os.path.join(os.path.dirname(rel), "nodir", "..", os.path.basename(rel)), rel + ("/" if os.path.isdir(os.path.join(root, rel)) else ""),
                  rel.replace("/", "//")]
    return rng.choice(forms + [os.path.join("..", os.path.basename(root), rel)])


def main(ck):
    d, base, rng = Driver(build.core()), ck.scratch(), ck.rng
    other = None
    try:        # another file system
        other = tempfile.mkdtemp(prefix="rtv-c20-", dir="/dev/shm")
        atexit.register(shutil.rmtree, other, True)
        os.chmod(other, 0o755)
        os.makedirs(os.path.join(other, "sub"))
        for f in ["test_a.py", "check_a.py", "sub/a_test.py", "sub/testa.py"]:
            open(os.path.join(other, f), "w").close()
        if os.stat(other).st_dev == os.stat(base).st_dev:
            other = None
    except OSError:
        other = None
    for rnd in ck.rounds(ck.n(250, 1500), ck.n(900, 12000)):
        top = os.path.join(base, f"t{rnd}")
        root = os.path.join(top, rng.choice(["root", "root", ".hid", "build", "é r"]))
        os.makedirs(root)
        dirs, files = make_tree(rng, root)
        if other and rng.random() < 0.06:
            at = os.path.join(rng.choice([x for x in dirs if "ln" not in x]), "far_ln")
            if not os.path.lexists(os.path.join(root, at)):
                os.symlink(other, os.path.join(root, at))
                dirs.append(at)
                ck.count("links_to_another_file_system")
        os.makedirs(os.path.join(top, "outside", "sub"))
        for f in rng.sample(FILES, 4) + ["sub/test_a.py", "sub/check_a.py"]:
            open(os.path.join(top, "outside", f), "w").close()
        for _ in range(4):
            pats = rng.choice(PATTERNS)
            args = []
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
                if rng.random() < 0.05:
                    args.append(rng.choice(["../outside", os.path.join(top, "outside"), "../outside/sub", "../outside/sub/test_a.py", os.path.join(top, "outside", "sub", "check_a.py")]))
                    continue
                what = rng.choice([rng.choice(dirs), rng.choice(files) if files else "", "no/such/place", "no_such.py"])
                args.append(spell(rng, root, what) if rng.random() < 0.97 else "")
            r = d.call(op="collect_files", root=root, paths=args, patterns=pats)
            again = d.call(op="collect_files", root=root, paths=args, patterns=pats)
            want = expected(root, args, pats)
            got = r.get("files")
            ck.case((sorted(dirs), sorted(files), args, pats), nontrivial=bool(want),
                    sample={"args": args, "patterns": pats, "selected": [os.path.relpath(x, root) for x in want][:8],
                            "files": len(files)})
            ck.count("selected", len(want))
            ck.count("with_overlap", len(args) > 1)
            norm = None if got is None else [os.path.abspath(x) for x in got]
            if got is None or norm != want or r != again:
                why = "a second call differs" if r != again else "no answer" if got is None else \
                    f"missing {sorted(set(want) - set(norm))[:4]}, extra {sorted(set(norm) - set(want))[:4]}, " \
                    f"{len(norm) - len(set(norm))} repeated, sorted as expected: {sorted(norm) == sorted(want)}"
                ck.violation(f"selection for {args} {pats}: {why}".replace(root, "ROOT"),
                             {"root": root, "dirs": dirs, "files": files, "args": args, "patterns": pats, "got": got, "want": want})
        ck.drop(top)


Check("C20", "Random trees (hidden, cache, build, virtual environment directories, odd and non-matching names, links to files "
      "and directories, broken and cyclic links, roots with hidden names) with 0-5 path arguments in several spellings "
      "(relative, absolute, '.', '..', doubled slashes, overlapping, missing) and 13 pattern lists. Non-trivial: at least "
      "one file is selected; distinct by tree, arguments and patterns.",
      assumptions=["file names are UTF-8", "patterns match the file's name, not its path",
                   "sorted order compares paths component by component"]).main(main, 300)
