"""Writes /verif/seeded/<id>/ from tools/bugs.py and confirms each bug against /repo (applied, then undone).

seed.py make [ID...]      write the folders (patch against HEAD, demo, meta)
seed.py confirm [ID...]   builds, stable tests pass, demo 0 without / nonzero with the patch
seed.py catch [ID...]     which checks (its own property's, or --all) notice it
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = f"{HERE}/seeded"
sys.path.insert(0, f"{HERE}/tools")
import bugs  # noqa: E402

REPO = os.environ.get("RTEST_REPO", "/repo")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **k)


def undo():
    sh(["git", "-C", REPO, "checkout", "--", "."])


def make(b):
    d = f"{SEEDED}/{b['id']}"
    os.makedirs(d, exist_ok=True)
    if sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip():
        sys.exit("repo is not clean")
    try:
        for name, old, new in b["edits"]:
            path = f"{REPO}/{name}"
            text = open(path).read()
            if text.count(old) != 1:
                sys.exit(f"{b['id']}: {name}: {text.count(old)} places match {old!r}")
            with open(path, "w") as f:
                f.write(text.replace(old, new))
        diff = sh(["git", "-C", REPO, "diff"]).stdout
    finally:
        undo()
    with open(f"{d}/patch.diff", "w") as f:
        f.write(diff)
    with open(f"{d}/meta.json", "w") as f:
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
    with open(f"{d}/demo.py", "w") as f:
        f.write(b["demo"].lstrip("\n"))
    with open(f"{d}/demo.sh", "w") as f:
        f.write('#!/bin/bash\n# exit 0 if the behaviour is intact\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    shutil.copy(f"{HERE}/tools/demolib.py", d)
    if "build(" in b["demo"]:
        shutil.copy(f"{HERE}/driver/src/main.rs", f"{d}/driver.rs")
    if "full_site(" in b["demo"]:
        if os.path.exists(f"{d}/shim"):
            shutil.rmtree(f"{d}/shim")
        shutil.copytree(f"{HERE}/shim", f"{d}/shim", ignore=shutil.ignore_patterns("target", "__pycache__"))


def demo(b):
    with tempfile.TemporaryDirectory() as t:
        d = f"{t}/x"
        shutil.copytree(f"{SEEDED}/{b['id']}", d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = sh(["bash", f"{d}/demo.sh"], cwd=REPO)
        return r.returncode, (r.stdout + r.stderr)[-1500:]


def confirm(b):
    code, out = demo(b)
    if code:
        return f"demo exits {code} on the unchanged tree\n{out}"
    r = sh(["git", "-C", REPO, "apply", f"{SEEDED}/{b['id']}/patch.diff"])
    if r.returncode:
        return f"does not apply: {r.stderr}"
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            return f"does not build: {(r.stdout + r.stderr)[-3000:]}"
        sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        got = json.load(open("/tmp/seed-out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        lost = missing(base, got)
        if lost:
            return f"stable tests fail: {lost}"
        code, out = demo(b)
        if not code:
            return "demo does not notice the patch"
        if "BROKEN" not in out:
            return f"demo fails oddly: {out}"
    finally:
        undo()
    return None


def passed(o):
    found = set()

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == "passed" and isinstance(v, list):
                    found.update(map(str, v))
                else:
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk(o)
    return found


def missing(base, got):
    want = set(map(str, base.get("stable") or [])) or passed(base) or set(map(str, base.get("tests", [])))
    return sorted(want - passed(got))


def catch(b, every):
    manifest = json.load(open(f"{HERE}/MANIFEST.json"))
    sh(["git", "-C", REPO, "apply", f"{SEEDED}/{b['id']}/patch.diff"])
    hits = []
    try:
        for c in manifest["checks"]:
            if not every and c["property"] != b["property"]:
                continue
            r = sh(c["quick_cmd"], cwd=HERE, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            if r.returncode == 1 and f"VIOLATION property={c['property']} " in r.stdout:
                hits.append(c["property"])
            elif r.returncode:
                hits.append(f"{c['property']}:rc{r.returncode}")
    finally:
        undo()
    return hits


def main():
    todo = [b for b in bugs.BUGS if b["id"] in sys.argv[2:]] or bugs.BUGS
    if "--all" in sys.argv and not [b for b in bugs.BUGS if b["id"] in sys.argv[2:]]:
        todo = bugs.BUGS
    for b in todo:
        if sys.argv[1] == "make":
            make(b)
        elif sys.argv[1] == "confirm":
            print(b["id"], b["property"], confirm(b) or "ok", flush=True)
        elif sys.argv[1] == "catch":
            print(b["id"], b["property"], catch(b, "--all" in sys.argv) or "MISSED", flush=True)


if __name__ == "__main__":
    main()
