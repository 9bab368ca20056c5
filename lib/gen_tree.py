"""Random project trees on disk (subprojects, links, odd names) and independent oracles about them."""
import os

NAMES = ["a", "b", "pkg", "sub", "sub-2", "sub 3", "é", "deep", "x.y", "tests", "src", "proj", "a-b", "[q]", "-d", "we\\ird", " lead", "trail ", "~", "$HOME"]


def subproject_tree(rng, root):
    """Directories, some with pyproject.toml, with test files and links; returns the test file paths (relative)."""
    dirs = [""]
    for _ in range(rng.randrange(1, 9)):
        parent = rng.choice(dirs)
        name = rng.choice(NAMES)
        d = os.path.join(parent, name)
        if rng.random() < 0.04:     # far down
            d = os.path.join(d, *(rng.choice(["x", "y"]) for _ in range(rng.choice([10, 40]))))
        if d not in dirs and d.count("/") < 60:
            os.makedirs(os.path.join(root, d), exist_ok=True)
            dirs.append(d)
    for d in dirs:
        if rng.random() < (0.5 if d else 0.3):
            p = os.path.join(root, d, "pyproject.toml")
            if rng.random() < 0.1:
                os.symlink("nowhere.toml", p)       # dangling: not a project file
            elif rng.random() < 0.15:
                open(os.path.join(root, d, "real.toml"), "w").close()
                os.symlink("real.toml", p)
            else:
                open(p, "w").write(rng.choice(["[project]\nname='x'\n"] * 2 + ["", "[tool.pytest.ini_options]\n", "not [ toml"]))
    for d in dirs:      # files that are no project files, whatever else they mean
        if rng.random() < 0.25:
            open(os.path.join(root, d, rng.choice(["pytest.ini", "setup.cfg", "tox.ini", "setup.py", "conftest.py", "Pyproject.toml", "pyproject.toml.bak",
                                                   "__init__.py", ".git"])), "w").close()
    files = []
    for d in dirs:
        for k in range(rng.choice([0, 1, 1, 2])):
            f = os.path.join(d, rng.choice([f"test_{k}.py", f"x{k}_test.py", f"test é{k}.py", f"te\\st_{k}.py", f" {k}_test.py", f"test_{k}.x.py"]))
            if f not in files:
                open(os.path.join(root, f), "w").write("def test_a(): pass\n")
                files.append(f)
    if not files:
        open(os.path.join(root, "test_only.py"), "w").write("")
        files.append("test_only.py")
    real = list(files)
    for k in range(rng.choice([0, 0, 1, 2, 3])):        # links to files
        d, target = rng.choice(dirs), rng.choice(real)
        f = os.path.join(d, f"test_link{k}.py")
        os.symlink(os.path.join(root, target) if rng.random() < 0.5 else
                   os.path.relpath(os.path.join(root, target), os.path.join(root, d)), os.path.join(root, f))
        files.append(f)
    for k in range(rng.choice([0, 0, 0, 1, 2])):        # links to directories
        d, target = rng.choice(dirs), rng.choice(dirs)
        link = os.path.join(d, f"ln{k}")
        os.symlink(os.path.join(root, target), os.path.join(root, link))
        for f in [f for f in real if os.path.dirname(f) == target][:2]:
            files.append(os.path.join(link, os.path.basename(f)))
    return files


def nearest_project(root, file):
    """The directory whose project file governs `file` (relative to root), by its real location; else root."""
    real = os.path.realpath(os.path.join(root, file))
    if not os.path.exists(real) or not real.startswith(root + "/"):
        return root
    d = os.path.dirname(real)
    while d != root:
        if os.path.exists(os.path.join(d, "pyproject.toml")):
            return d
        d = os.path.dirname(d)
    return root


PARTS = ["test_a", "TestC::test_m", "test_p[1-2]", "test_p[a::b]", "test_p[x/y]", "TestC::test_q[../z]", "test_é",
         "test_p[ ]", "test_p[a.py::b]", "test_p[--x]"]


def nodes(rng, files, at_most=40):
    out = []
    for f in files:
        for part in rng.sample(PARTS, rng.choice([1, 1, 2, 4])):
            out.append(f + "::" + part)
        if rng.random() < 0.1:
            out.append(f)
    rng.shuffle(out)
    return out[:at_most]


def split(node):
    f, sep, part = node.partition("::")
    return f, (part if sep else None)
