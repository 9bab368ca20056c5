"""Framework of the checks: seeding, verdicts, evidence, known findings, scratch space, the driver process."""
import hashlib
import json
import os
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build  # noqa: E402

PY = build.PY
KNOWN = os.path.join(HERE, "known_findings.txt")
RUNTIME = os.path.join(HERE, "lib", "runtime")  # helper modules and stand-in executables used by workloads


class Inconclusive(Exception):
    """The machinery could not decide (time limit, build failure, nothing observed): exit 2, never a verdict."""


class EnoughViolations(Exception):
    pass


class Check:
    MAX_VIOLATIONS = 3

    def __init__(self, pid, rule, level="exploration", assumptions=(), budget=(40, 420)):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.t0 = time.time()
        self.budget = budget[0] if self.tier == "quick" else budget[1]
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.viol = []
        self.known = []  # (signature, text) listed for this property
        self.known_hit = set()
        self.scratch_dirs = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN, encoding="utf-8"):
                m = re.match(r"KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)", line)
                if m and m[1] == pid:
                    self.known.append((m[2], m[3].strip()))

    # --- workload size -------------------------------------------------------------------------
    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def time_left(self):
        return self.t0 + self.budget - time.time()

    def rounds(self, at_least, at_most):
        """Round numbers: at least `at_least` of them, then on while the time budget lasts."""
        i = 0
        while i < at_most and (i < at_least or self.time_left() > 0):
            yield i
            i += 1

    # --- counting ------------------------------------------------------------------------------
    def case(self, key, nontrivial=True, sample=None):
        self.evals += 1
        if nontrivial:
            h = hashlib.sha1(repr(key).encode("utf-8", "replace")).digest()[:10]
            new = h not in self.distinct
            self.distinct.add(h)
            if new and (len(self.samples) < 4 or (len(self.samples) < 8 and self.rng_s().random() < 0.02)):
                text = json.dumps(sample if sample is not None else key, default=repr)
                self.samples.append(text if len(text) <= 700 else text[:700] + "...")

    def rng_s(self):
        if not hasattr(self, "_rs"):
            self._rs = random.Random(7)
        return self._rs

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    # --- verdicts ------------------------------------------------------------------------------
    def violation(self, what, replay, sig=None):
        """`sig` identifies the specific failing input; it is matched against the known-findings file."""
        if sig is not None:
            for ksig, text in self.known:
                if ksig == sig:
                    self.known_hit.add(ksig)
                    return
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{len(self.viol)}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "sig": sig, "seed": self.seed, "tier": self.tier,
                       "rerun": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 checks/{self.pid.lower()}.py",
                       "case": replay}, f, indent=1, default=repr)
        self.viol.append((what, path))
        print(f"{self.pid}: {what}"[:1500])
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        if len(self.viol) >= self.MAX_VIOLATIONS:
            raise EnoughViolations()

    # --- scratch -------------------------------------------------------------------------------
    def scratch(self, created_order=False):
        """`created_order`: on a file system that lists a directory in an order that depends on the order the
        entries were made in (tmpfs; ext4 lists them by a hash of their names), where there is one."""
        where = "/dev/shm" if created_order and os.access("/dev/shm", os.W_OK | os.X_OK) else None
        d = os.path.realpath(tempfile.mkdtemp(prefix=f"rtv-{self.pid}-", dir=where))
        self.scratch_dirs.append(d)
        return d

    def drop(self, d):
        for root, dirs, _ in os.walk(d):
            for x in dirs:
                p = os.path.join(root, x)
                if not os.path.islink(p):
                    try:
                        os.chmod(p, 0o755)
                    except OSError:
                        pass
        shutil.rmtree(d, ignore_errors=True)
        if d in self.scratch_dirs:
            self.scratch_dirs.remove(d)

    # --- running -------------------------------------------------------------------------------
    def main(self, fn, min_cases=1):
        code = 2
        try:
            try:
                fn(self)
            except EnoughViolations:
                pass
            if self.viol:
                code = 1
            elif len(self.distinct) < min_cases:
                print(f"{self.pid}: inconclusive: only {len(self.distinct)} non-trivial cases observed")
            else:
                code = 0
        except (Inconclusive, build.BuildError) as e:
            print(f"{self.pid}: inconclusive: {e}")
            code = 1 if self.viol else 2
        except Exception:
            traceback.print_exc()
            code = 1 if self.viol else 2
        finally:
            for d in list(self.scratch_dirs):
                self.drop(d)
            self.write_evidence()
        for sig, text in self.known:
            if sig in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {text}")
            else:
                print(f"note: listed finding sig={sig} was not observed in this run")
        print(f"{self.pid}: {'held' if code == 0 else 'VIOLATED' if code == 1 else 'inconclusive'} "
              f"({self.evals} cases, {len(self.distinct)} distinct non-trivial, {time.time() - self.t0:.1f}s, "
              f"tier={self.tier} seed={self.seed}) {json.dumps(self.counts)}")
        sys.exit(code)

    def write_evidence(self):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples or ["(none)"], "observed": self.counts}
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(HERE, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)


# --- processes -------------------------------------------------------------------------------------

def base_env(site, extra=None):
    """A small, fixed environment for everything the checks run."""
    env = {"PATH": f"{os.path.dirname(PY)}:/usr/local/bin:/usr/bin:/bin", "HOME": "/root", "LANG": "C.UTF-8",
           "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTEST_DISABLE_PLUGIN_AUTOLOAD": "1",
           "PYTHONPATH": f"{site}:{RUNTIME}", "PYTHONHASHSEED": "0"}
    if extra:
        env.update({k: v for k, v in extra.items() if v is not None})
        for k, v in extra.items():
            if v is None:
                env.pop(k, None)
    return env


SPAWN = threading.Lock()


def popen(*args, **kw):
    """Popen that no script is written beside: a child that is not yet what it will be would keep the file open for writing, and nobody could execute it ("Text file busy")."""
    with SPAWN:
        return subprocess.Popen(*args, **kw)


def write_script(path, text):
    """An executable script."""
    with SPAWN:
        with open(path, "w") as f:
            f.write(text)
        os.chmod(path, 0o755)
    return path


def run(cmd, env=None, cwd=None, timeout=180, input=None):
    """Run to completion in its own process group; a time-out is inconclusive, never a verdict."""
    p = popen(cmd, env=env, cwd=cwd, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        raise Inconclusive(f"time limit of {timeout}s hit by {cmd[:4]}")
    return p.returncode, out, err


class Driver:  # one command in flight at a time, so waiting on the pipe before reading a line is sound
    """`rtdrv serve`: batches of commands to the public API."""

    def __init__(self, exe, env=None, cwd=None):
        self.exe, self.env, self.cwd = exe, env, cwd
        self.start()

    def start(self):
        self.p = popen([self.exe, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=self.env, cwd=self.cwd)

    def call(self, _timeout=300, **cmd):
        self.p.stdin.write(json.dumps(cmd).encode() + b"\n")
        self.p.stdin.flush()
        if not select.select([self.p.stdout], [], [], _timeout)[0]:
            self.p.kill()
            self.p.wait()
            self.start()
            return {"timeout": _timeout}
        line = self.p.stdout.readline()
        if not line:
            rc = self.p.wait()
            self.start()
            return {"died": rc}
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def one_shot(exe, kind, config, scratch, env, timeout=180, cwd=None):
    """Run a printing operation; returns (status or None if the driver itself died, stdout, stderr, raw returncode)."""
    cfg = os.path.join(scratch, "op.json")
    codef = os.path.join(scratch, "op.code")
    if os.path.exists(codef):
        os.remove(codef)
    with open(cfg, "w") as f:
        json.dump(dict(config, code_file=codef), f)
    rc, out, err = run([exe, kind, cfg], env=env, cwd=cwd or scratch, timeout=timeout)
    code = int(open(codef).read()) if os.path.exists(codef) else None
    return code, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), rc


WORDS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "mu", "nu", "xi", "omi",
         "rho", "sigma", "tau", "phi", "chi", "psi"]


def write_file(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    mode = "wb" if isinstance(text, bytes) else "w"
    with open(path, mode, **({} if mode == "wb" else {"encoding": "utf-8", "newline": "\n"})) as f:
        f.write(text)
