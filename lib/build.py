"""Builds what the checks need from /repo's current working tree, into /verif/build (never inside /repo).

core  : the modules of rtest that need no ruff_* crate, as a library, plus the driver binary linked to it
full  : the whole crate with the extension module, ruff_* replaced by the crates in /verif/shim, laid out as an
        importable Python package (build/site/rtest, with _rtest.so and the Python sources of /repo)

Sources are copied from /repo by content (mtime changes only when content does), so cargo stays incremental.
"""
import fcntl
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RTEST_REPO", "/repo")
BUILD = os.environ.get("RTEST_BUILD", os.path.join(HERE, "build"))
PY = "/opt/vp/venv/bin/python"

LEFT_OUT = {
    "collection_integration",
    "collection::nodes",
    "python_discovery::cases",
    "python_discovery::constant_resolver",
    "python_discovery::discovery",
    "python_discovery::module_resolver",
    "python_discovery::semantic_analyzer",
    "python_discovery::visitor",
}


class BuildError(Exception):
    pass


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or read(path) != text:
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)


def sync_tree(src, dst, suffixes):
    """Copy src to dst by content; remove files of dst that src does not have."""
    seen = set()
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for f in files:
            if not f.endswith(suffixes):
                continue
            s = os.path.join(d, f)
            rel = os.path.relpath(s, src)
            seen.add(rel)
            t = os.path.join(dst, rel)
            with open(s, "rb") as h:
                data = h.read()
            if os.path.exists(t):
                with open(t, "rb") as h:
                    if h.read() == data:
                        continue
            os.makedirs(os.path.dirname(t), exist_ok=True)
            with open(t, "wb") as h:
                h.write(data)
    if os.path.isdir(dst):
        for d, dirs, files in os.walk(dst):
            for f in files:
                rel = os.path.relpath(os.path.join(d, f), dst)
                if f.endswith(suffixes) and rel not in seen:
                    os.remove(os.path.join(dst, rel))


def module(path, directory, prefix=""):
    """The text of a module file, its `mod x;` items resolved against the copied sources, left-out ones removed."""
    text = read(path)

    def use(m):
        return "" if prefix + m[1] in LEFT_OUT else m[0]

    def mod(m):
        vis, name = m[1] or "", m[2]
        if prefix + name in LEFT_OUT:
            return ""
        inner = f"{directory}/{name}"
        if os.path.exists(f"{inner}/mod.rs"):
            if any(x.startswith(f"{prefix}{name}::") for x in LEFT_OUT):
                body = module(f"{inner}/mod.rs", inner, f"{prefix}{name}::")
                return f"{vis}mod {name} {{\n{body}\n}}"
            return f'#[path = "{inner}/mod.rs"]\n{vis}mod {name};'
        return f'#[path = "{inner}.rs"]\n{vis}mod {name};'

    text = re.sub(r"^pub use (\w+)\b[^;]*;", use, text, flags=re.M)
    return re.sub(r"^(pub(?:\([^)]*\))? )?mod (\w+);", mod, text, flags=re.M)


def cargo_env(target):
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               CARGO_TARGET_DIR=target)
    env.pop("RUSTFLAGS", None)
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin"
    return env


def run_cargo(args, target, what):
    r = subprocess.run(["cargo"] + args, env=cargo_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError(f"{what} does not build:\n{r.stdout[-6000:]}")


def seed_lock(dst):
    lock, seed = read(f"{REPO}/Cargo.lock"), f"{dst}/Cargo.lock.seed"
    if not (os.path.exists(seed) and os.path.exists(f"{dst}/Cargo.lock") and read(seed) == lock):
        write(f"{dst}/Cargo.lock", lock)
        write(seed, lock)


class lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(f"{BUILD}/.lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def python_site():
    """build/pysite: the Python package of /repo, without any compiled extension."""
    with lock():
        sync_tree(f"{REPO}/python", f"{BUILD}/pysite", (".py", ".pyi", ".typed"))
    return f"{BUILD}/pysite"


def core():
    """Path of the driver binary linked against the ruff-free part of the crate."""
    with lock():
        src, out = f"{BUILD}/core/src", f"{BUILD}/core"
        sync_tree(f"{REPO}/src", src, (".rs",))
        manifest = re.sub(r"^ruff_\w+ = .*\n", "", read(f"{REPO}/Cargo.toml"), flags=re.M)
        manifest = re.sub(r"^pyo3 = .*\n", "", manifest, flags=re.M)
        manifest = re.sub(r"^extension-module = .*\n", "extension-module = []\n", manifest, flags=re.M)
        manifest = re.sub(r"^crate-type = .*\n", 'crate-type = ["rlib"]\n', manifest, flags=re.M)
        manifest = manifest.replace("[lib]\n", '[lib]\npath = "lib.rs"\n', 1)
        write(f"{out}/Cargo.toml", manifest)
        write(f"{out}/lib.rs", module(f"{src}/lib.rs", src))
        ws = f"{BUILD}/driver"
        sync_tree(f"{HERE}/driver/src", f"{ws}/src", (".rs",))
        write(f"{ws}/Cargo.toml", read(f"{HERE}/driver/Cargo.toml").replace("@CORE@", out))
        seed_lock(ws)
        run_cargo(["build", "-q", "--offline", "--manifest-path", f"{ws}/Cargo.toml"], f"{BUILD}/target", "core + driver")
        return f"{BUILD}/target/debug/rtdrv"


def full():
    """Directory to put on PYTHONPATH: the package with its compiled extension."""
    with lock():
        out = f"{BUILD}/full"
        sync_tree(f"{REPO}/src", f"{out}/src", (".rs",))
        sync_tree(f"{HERE}/shim", f"{BUILD}/shim", (".rs", ".toml", ".py"))
        manifest = re.sub(r'path = "ruff/crates/(\w+)"', rf'path = "{BUILD}/shim/\1"', read(f"{REPO}/Cargo.toml"))
        write(f"{out}/Cargo.toml", manifest + "\n[workspace]\n")
        seed_lock(out)
        env = {"PYO3_PYTHON": PY}
        os.environ.update(env)
        run_cargo(["build", "-q", "--offline", "--features", "extension-module", "--manifest-path", f"{out}/Cargo.toml"],
                  f"{BUILD}/target-full", "full extension")
        site = f"{BUILD}/site"
        sync_tree(f"{REPO}/python", site, (".py", ".pyi", ".typed"))
        so, dst = f"{BUILD}/target-full/debug/librtest.so", f"{site}/rtest/_rtest.so"
        if not os.path.exists(dst) or os.stat(dst).st_mtime_ns != os.stat(so).st_mtime_ns:
            tmp = f"{dst}.{os.getpid()}"
            shutil.copy2(so, tmp)
            os.replace(tmp, dst)
        return site


if __name__ == "__main__":
    t = time.time()
    try:
        for what in sys.argv[1:] or ["core", "full"]:
            print(what, {"core": core, "full": full, "py": python_site}[what](), f"{time.time() - t:.1f}s")
    except BuildError as e:
        print(e)
        sys.exit(2)
