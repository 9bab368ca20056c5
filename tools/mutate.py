"""Mutation campaign: small faults in copies of /repo, which of them the stable tests let pass, and which of those no check notices.

mutate.py DIR LANES SEED [FILE...]    works in DIR (scratch), results in DIR/results.jsonl
"""

import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "src/scheduler.rs": "C13 C14",
    "src/worker.rs": "C15 C16",
    "src/runner.rs": "C22 C16 C15 C17",
    "src/pytest_executor.rs": "C22 C28",
    "src/subproject.rs": "C17 C16",
    "src/utils.rs": "C18",
    "src/cli.rs": "C18 C27",
    "src/config.rs": "C19 C26",
    "src/native_runner.rs": "C02 C20 C01 C03 C04 C21 C26",
    "src/collection/utils.rs": "C20 C23",
    "src/collection/nodes.rs": "C23 C24 C25 C26",
    "src/collection/error.rs": "C24",
    "src/collection_integration.rs": "C24 C25 C23",
    "src/pyo3.rs": "C27 C28 C26 C25 C24",
    "src/python_discovery/cases.rs": "C23 C26 C27",
    "src/python_discovery/constant_resolver.rs": "C23 C26",
    "src/python_discovery/discovery.rs": "C23 C24 C26",
    "src/python_discovery/module_resolver.rs": "C23 C24",
    "src/python_discovery/pattern.rs": "C23 C26",
    "src/python_discovery/semantic_analyzer.rs": "C23 C24 C26",
    "src/python_discovery/visitor.rs": "C23 C24 C26",
    "python/rtest/mark.py": "C10 C11 C26",
    "python/rtest/raises.py": "C12",
    "python/rtest/worker/runner.py": "C06 C05 C07 C08 C09 C10 C11 C01 C02 C21 C26",
    "python/rtest/worker/__main__.py": "C01 C02 C06 C26",
    "python/rtest/__main__.py": "C27",
}
RUST = [
    (r"==", "!="),
    (r"!=", "=="),
    (r"(?<![-<=>:&(,|\w])\s<\s", " <= "),
    (r"\s>\s(?!\{)", " >= "),
    (r"\s<=\s", " < "),
    (r"\s>=\s", " > "),
    (r"&&", "||"),
    (r"(?<=[\w)\]] )\|\|(?= [\w!(])", "&&"),
    (r"(?<=[ (])!(?=[a-z(])", ""),
    (r"\btrue\b", "false"),
    (r"\bfalse\b", "true"),
    (r"(?<=if )(?!let)(?=[a-z])", "!"),
    (r"\.any\(", ".all("),
    (r"\.all\(", ".any("),
    (r"\.min\(", ".max("),
    (r"\.max\(", ".min("),
    (r"\bcontinue\b", "break"),
    (r"\bbreak\b", "continue"),
    (r"\b0\b(?!\.)", "1"),
    (r"\b1\b(?!\.)", "0"),
    (r"\b1\b(?!\.)", "2"),
    (r"%", "/"),
    (r"(?<=[\w)] )\+(?= [\w(])", "-"),
    (r"(?<=[\w)] )-(?= [\w(])", "+"),
    (r"\+= 1", "+= 2"),
    (r"\.rev\(\)", ""),
    (r"\.trim\(\)", ""),
    (r"\.is_some\(\)", ".is_none()"),
    (r"\.is_none\(\)", ".is_some()"),
    (r"\.is_ok\(\)", ".is_err()"),
    (r"\.starts_with\(", ".ends_with("),
    (r"\.ends_with\(", ".starts_with("),
    (r"\.first\(\)", ".last()"),
    (r"\.last\(\)", ".first()"),
    (r"\.is_dir\(\)", ".exists()"),
    (r"\.is_file\(\)", ".exists()"),
    (r"\.exists\(\)", ".is_file()"),
    (r"\.canonicalize\(\)", ".to_path_buf()"),
    (r"\.split_once\(", ".rsplit_once("),
    (r"\.rsplit_once\(", ".split_once("),
    (r"\.find\(", ".rfind("),
    (r"\.rfind\(", ".find("),
    (r"\.unwrap_or\((\w+)\)", ".unwrap_or_default()"),
    (r"\.splitn\(2,", ".splitn(3,"),
    (r"\.filter\((?=\|)", ".skip_while("),
    (r"\.filter_map\(", ".map_while("),
    (r"\.take_while\(", ".filter("),
    (r'"([^"{}\\]+)"', '""'),
]
# a statement or a guarded block removed
RUST_LINES = re.compile(
    r"^(\s*)(?!let |use |pub |fn |return|\}|//|#|\.|\w+:)([a-z_][\w.:]*(\.|::)?\w*\(.*\)\??;|\*?[\w.]+ [-+]?= .*;)\s*$"
)


def rust(text):
    end = text.find("#[cfg(test)]\nmod ")
    body = text if end < 0 else text[:end]
    at = 0
    for line in body.splitlines(keepends=True):
        code = line.split("//")[0]
        if code.strip() and not code.strip().startswith(("#", "use ", "pub use", "mod ")):
            strings = [m.span() for m in re.finditer(r'"(?:[^"\\\\]|\\\\.)*"', code)]
            for pattern, new in RUST:
                for m in re.finditer(pattern, code):
                    if pattern[0] != '"' and any(a < m.start() < b for a, b in strings):
                        continue
                    yield at + m.start(), at + m.end(), new
            if RUST_LINES.match(line):
                yield at, at + len(line), ""
            m = re.match(r"\s*return (.+);$", code.rstrip())
            if m:
                yield at, at + len(line), ""
        at += len(line)


SWAP = {
    ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
    ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in",
}  # fmt: skip


def python(text):
    lines = text.splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()))
    raw = text.encode()

    def pos(line, col):
        return len(raw[: starts[line - 1] + col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def src(n):
        a, b = span(n)
        return text[a:b]

    def repl(n, new):
        return (*span(n), new)

    tree = ast.parse(text)
    said = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}  # docstrings, help texts
    said |= {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.keyword) and n.arg in ("help", "description")}
    for n in ast.walk(tree):
        if id(n) in said and isinstance(n, ast.Constant):
            continue
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                left = n.left if k == 0 else n.comparators[k - 1]
                yield span(left)[1], span(n.comparators[k])[0], f" {SWAP[type(op)]} "
            yield repl(n, "True")
            yield repl(n, "False")
        elif isinstance(n, ast.BoolOp):
            for k, v in enumerate(n.values):
                rest = [src(x) for j, x in enumerate(n.values) if j != k]
                yield repl(n, "(" + (" or " if isinstance(n.op, ast.Or) else " and ").join(rest) + ")")
            yield repl(
                n, "(" + (" and " if isinstance(n.op, ast.Or) else " or ").join(f"({src(v)})" for v in n.values) + ")"
            )
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield repl(n, f"({src(n.operand)})")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                yield repl(n, str(not n.value))
            elif isinstance(n.value, int):
                yield repl(n, str(n.value + 1))
                yield repl(n, str(n.value - 1))
            elif (
                isinstance(n.value, str)
                and n.value
                and len(n.value) < 40
                and src(n)[:1] in "'\""
                and "\n" not in src(n)
            ):
                yield repl(n, "'xx'")
                yield repl(n, "''")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                yield repl(n, "pass")
        elif isinstance(n, ast.Return) and n.value is not None:
            yield repl(n, "return None")
        elif isinstance(n, ast.Continue):
            yield repl(n, "break")
            yield repl(n, "pass")
        elif isinstance(n, ast.Break):
            yield repl(n, "pass")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield repl(n.test, "True")
            yield repl(n.test, "False")
            yield repl(n.test, f"(not ({src(n.test)}))")
        elif isinstance(n, ast.Call):
            name = getattr(n.func, "id", getattr(n.func, "attr", ""))
            if n.args and name in ("sorted", "reversed", "set", "list", "tuple", "dict", "str"):
                yield repl(n, src(n.args[0]))
            if name in ("any", "all"):
                yield (*span(n.func), "all" if name == "any" else "any")
            for k, a in enumerate(n.args):
                if len(n.args) > 2 and k == len(n.args) - 1:
                    yield span(n.args[k - 1])[1], span(a)[1], ""
            for k in n.keywords:
                if k.arg:
                    yield repl(k.value, "None")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            for new in ("Exception", "BaseException", "ValueError", "OSError"):
                if src(n.type) != new:
                    yield repl(n.type, new)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield repl(n, f"({src(n.left)})")
            yield repl(n, f"({src(n.right)})")
        elif isinstance(n, ast.Try) and n.finalbody:
            yield repl(n.finalbody[0], "pass")
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs:
                    yield repl(c, "True")


def mutants(repo, name):
    text = open(f"{repo}/{name}").read()
    out = []
    for a, b, new in dict.fromkeys((rust if name.endswith(".rs") else python)(text)):
        m = text[:a] + new + text[b:]
        if m == text:
            continue
        if name.endswith(".py"):
            try:
                compile(m, name, "exec")
            except (SyntaxError, ValueError):
                continue
        line = text.count("\n", 0, a) + 1
        out.append(
            {
                "file": name,
                "line": line,
                "old": text[a:b],
                "new": new,
                "at": a,
                "to": b,
                "text": text.splitlines()[line - 1].strip(),
            }
        )
    return out


class Lane:
    def __init__(self, base, k):
        self.dir = f"{base}/lane{k}"
        os.makedirs(self.dir, exist_ok=True)
        self.repo, self.verif = f"{self.dir}/repo", f"{self.dir}/verif"
        for src, dst in (("/repo", self.repo), (HERE, self.verif)):
            if os.path.exists(dst):
                shutil.rmtree(dst)
            subprocess.run(["git", "clone", "-q", src, dst], check=True)
        os.makedirs(f"{self.verif}/evidence", exist_ok=True)
        vp = f"{self.dir}/vp"
        if not os.path.exists(vp):
            shutil.copytree("/opt/vp", vp, ignore=shutil.ignore_patterns("venv", "logs"))
        for d, _, files in os.walk(vp):
            for f in files:
                if f.endswith((".sh", ".py", ".toml", ".rs")):
                    t = open(f"{d}/{f}").read()
                    t = (
                        t.replace("/opt/vp/venv", "@V")
                        .replace("/opt/vp", vp)
                        .replace("/repo", self.repo)
                        .replace("@V", "/opt/vp/venv")
                    )
                    open(f"{d}/{f}", "w").write(t)
        self.vp = vp
        self.env = dict(
            os.environ, RTEST_REPO=self.repo, RTEST_BUILD=f"{self.dir}/build", VERIF_SEED="1", VERIF_TIER="quick"
        )

    def sh(self, cmd, cwd=None, timeout=600):
        p = subprocess.Popen(cmd, shell=True, cwd=cwd or self.dir, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, errors="replace", start_new_session=True)  # fmt: skip
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            return -1, "timeout"

    def stable(self):
        if self.sh(f"bash {self.vp}/build.sh")[0]:
            return "build"
        code, out = self.sh(f"timeout 120 bash {self.vp}/test.sh {self.dir}/out.json")
        try:
            got = set(json.load(open(f"{self.dir}/out.json"))["passed"])
        except (OSError, ValueError, KeyError):
            return "tests"
        return None if self.base is None or self.base <= got else "tests"

    base = None

    def start(self):
        bad = self.stable()
        assert bad is None, bad
        self.base = set(json.load(open(f"{self.dir}/out.json"))["passed"])

    def judge(self, m):
        path = f"{self.repo}/{m['file']}"
        text = open(path).read()
        if os.path.exists(f"{self.dir}/out.json"):
            os.remove(f"{self.dir}/out.json")
        try:
            open(path, "w").write(text[: m["at"]] + m["new"] + text[m["to"] :])
            bad = self.stable()
            if bad:
                return bad
            for c in CHECKS[m["file"]].split():
                code, out = self.sh(f"timeout 300 python3 checks/{c.lower()}.py", cwd=self.verif)
                if "BuildError" in out or "error: could not compile" in out:
                    return "build"
                if code == 1 and f"VIOLATION property={c} " in out:
                    return c
                if code:
                    return f"{c}:rc{code}"
            return "SURVIVED"
        finally:
            open(path, "w").write(text)


def main():
    base, lanes, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:] or list(CHECKS)
    todo = [m for f in files for m in mutants("/repo", f)]
    random.Random(seed).shuffle(todo)
    done = set()
    log = f"{base}/results.jsonl"
    os.makedirs(base, exist_ok=True)
    if os.path.exists(log):
        done = {(r["file"], r["at"], r["to"], r["new"]) for r in map(json.loads, open(log))}
    todo = [m for m in todo if (m["file"], m["at"], m["to"], m["new"]) not in done]
    print(len(todo), "mutants", flush=True)
    lock = threading.Lock()

    def work(k):
        lane = Lane(base, k)
        lane.start()
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop()
            m["result"] = lane.judge(m)
            with lock, open(log, "a") as f:
                f.write(json.dumps(m) + "\n")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(lanes)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
