"""Shared by the demonstrations: the real worker and the public Rust interface, on scratch projects."""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

BESIDE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
PY = "/opt/vp/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
LEFT_OUT = {
    "collection_integration",
    "collection::nodes",
    "python_discovery::cases",
    "python_discovery::constant_resolver",
    "python_discovery::discovery",
    "python_discovery::module_resolver",
    "python_discovery::semantic_analyzer",
    "python_discovery::visitor",
}


class Scratch:
    def __enter__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="rtdemo-"))
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def put(root, files):
    for name, text in files.items():
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)


def env(**extra):
    e = dict(os.environ, PYTHONPATH=f"{REPO}/python", PYTHONDONTWRITEBYTECODE="1")
    e["PATH"] = f"{os.path.dirname(PY)}:{e.get('PATH', '/usr/bin:/bin')}"
    e.update(extra)
    return e


def worker(files, order=None, args=()):
    """Run the worker over files; (exit status, results in report order)."""
    with Scratch() as d:
        put(f"{d}/p", files)
        out = f"{d}/out.jsonl"
        names = order or [n for n in files if os.path.basename(n).startswith("test_")]
        r = subprocess.run(
            [PY, "-m", "rtest.worker", "--root", f"{d}/p", "--out", out, *args, "--", *[f"{d}/p/{n}" for n in names]],
            cwd=f"{d}/p",
            env=env(),
            capture_output=True,
            text=True,
        )
        results = [json.loads(x) for x in open(out)] if os.path.exists(out) else None
        if results is None:
            print(r.stdout, r.stderr)
        return r.returncode, results


def outcomes(results):
    return {r["nodeid"]: r["outcome"] for r in results or []}


def module(path, directory, prefix=""):
    text = open(path).read()

    def use(m):
        return "" if prefix + m[1] in LEFT_OUT else m[0]

    def mod(m):
        vis, name = m[1] or "", m[2]
        if prefix + name in LEFT_OUT:
            return ""
        inner = f"{directory}/{name}"
        if os.path.exists(f"{inner}/mod.rs"):
            if any(x.startswith(f"{prefix}{name}::") for x in LEFT_OUT):
                return f"{vis}mod {name} {{\n{module(f'{inner}/mod.rs', inner, f'{prefix}{name}::')}\n}}"
            return f'#[path = "{inner}/mod.rs"]\n{vis}mod {name};'
        return f'#[path = "{inner}.rs"]\n{vis}mod {name};'

    text = re.sub(r"^pub use (\w+)\b[^;]*;", use, text, flags=re.M)
    return re.sub(r"^(pub(?:\([^)]*\))? )?mod (\w+);", mod, text, flags=re.M)


def build(d):
    """Build driver.rs against the ruff-free part of the crate, in d; path of the program."""
    shutil.copytree(f"{REPO}/src", f"{d}/core/src")
    manifest = open(f"{REPO}/Cargo.toml").read()
    manifest = re.sub(r"^(ruff_\w+|pyo3) = .*\n", "", manifest, flags=re.M)
    manifest = re.sub(r"^extension-module = .*\n", "extension-module = []\n", manifest, flags=re.M)
    manifest = re.sub(r"^crate-type = .*\n", 'crate-type = ["rlib"]\n', manifest, flags=re.M)
    manifest = manifest.replace("[lib]\n", '[lib]\npath = "lib.rs"\n', 1)
    put(f"{d}/core", {"Cargo.toml": manifest, "lib.rs": module(f"{d}/core/src/lib.rs", f"{d}/core/src")})
    shutil.copy(f"{REPO}/Cargo.lock", f"{d}/Cargo.lock")
    put(
        d,
        {
            "Cargo.toml": '[package]\nname = "drv"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
            'rtest = { path = "core" }\nclap = { version = "4.5.4", features = ["derive"] }\n'
            'serde_json = "1.0"\nlog = "0.4"\nnum_cpus = "1.0"\n[workspace]\n',
            "src/main.rs": open(f"{BESIDE}/driver.rs").read(),
        },
    )
    e = dict(
        os.environ,
        CARGO_TARGET_DIR=f"{d}/target",
        CARGO_NET_OFFLINE="true",
        CARGO_PROFILE_DEV_DEBUG="0",
        RUSTUP_TOOLCHAIN="stable",
        RUSTC_WRAPPER="",
    )
    r = subprocess.run(
        ["cargo", "build", "-q", "--offline", "--manifest-path", f"{d}/Cargo.toml"],
        env=e,
        capture_output=True,
        text=True,
    )
    if r.returncode:
        print(r.stderr[-3000:])
        sys.exit(3)
    return f"{d}/target/debug/drv"


def full_site(d):
    """Build the whole crate in d, ruff's parser replaced by the stand-in beside this file; a directory for PYTHONPATH."""
    shutil.copytree(f"{REPO}/src", f"{d}/full/src")
    shutil.copytree(f"{BESIDE}/shim", f"{d}/shim")
    manifest = re.sub(r'path = "ruff/crates/(\w+)"', rf'path = "{d}/shim/\1"', open(f"{REPO}/Cargo.toml").read())
    put(f"{d}/full", {"Cargo.toml": manifest + "\n[workspace]\n"})
    shutil.copy(f"{REPO}/Cargo.lock", f"{d}/full/Cargo.lock")
    e = dict(
        os.environ,
        CARGO_TARGET_DIR=f"{d}/target",
        CARGO_NET_OFFLINE="true",
        CARGO_PROFILE_DEV_DEBUG="0",
        RUSTUP_TOOLCHAIN="stable",
        RUSTC_WRAPPER="",
        PYO3_PYTHON=PY,
    )
    r = subprocess.run(
        [
            "cargo",
            "build",
            "-q",
            "--offline",
            "--features",
            "extension-module",
            "--manifest-path",
            f"{d}/full/Cargo.toml",
        ],
        env=e,
        capture_output=True,
        text=True,
    )
    if r.returncode:
        print(r.stderr[-3000:])
        sys.exit(3)
    shutil.copytree(f"{REPO}/python", f"{d}/site", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    shutil.copy(f"{d}/target/debug/librtest.so", f"{d}/site/rtest/_rtest.so")
    return f"{d}/site"


def rtest(site, root, *args):
    """The command line, run in root: (status, output, errors)."""
    r = subprocess.run(
        [PY, "-m", "rtest", *args],
        cwd=root,
        env=env(PYTHONPATH=site, NO_COLOR="1"),
        capture_output=True,
        text=True,
        timeout=120,
    )
    return r.returncode, r.stdout, r.stderr


def listed(site, root, *args):
    """The identifiers listed for the arguments."""
    code, out, err = rtest(site, root, "--collect-only", *args)
    return [line[2:] for line in out.splitlines() if line.startswith("  ")]


def calls(exe, commands, **extra_env):
    text = "".join(json.dumps(c) + "\n" for c in commands)
    r = subprocess.run([exe, "serve"], input=text, capture_output=True, text=True, env=env(**extra_env))
    return [json.loads(x) for x in r.stdout.splitlines()]


def run_once(exe, d, kind, **config):
    """native | parallel | exec: (status, stdout, stderr)."""
    with open(f"{d}/op.json", "w") as f:
        json.dump(dict(config, code_file=f"{d}/op.code"), f)
    r = subprocess.run([exe, kind, f"{d}/op.json"], capture_output=True, text=True, env=env(), cwd=d)
    return int(open(f"{d}/op.code").read()), r.stdout, r.stderr


def script(d, name, text):
    """An executable Python stand-in."""
    path = f"{d}/{name}"
    with open(path, "w") as f:
        f.write(f"#!{PY}\n{text}")
    os.chmod(path, 0o755)
    return path


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)
