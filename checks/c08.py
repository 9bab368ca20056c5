"""C08: captured output belongs to the test that wrote it (conservation monitor: everything written is accounted for exactly)."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import workers as W
from bodies import HEAD, by_nodeid
from vlib import Check, write_file

BITS = ["a", "line\n", "é中文\n", "\r\n", "\r", "\t", "\x00", "\x1b[1m", "\u2028", "\x85", "\U0001f600", "  ", "\n\n", "\\n", "'\"", "{}%s", "\ud800",
        "x\udc80y", "\ufeff", "=" * 80 + "\n", "[{\"nodeid\": 1}]\n", "\x7f", "~" * 3000]
WAYS = ["print", "print_file", "write", "writelines", "parts", "flush", "thread", "closed", "logging", "redirect", "stale", "encoding", "helper",
        "swap", "displayhook", "dup", "warning"]
PRE = HEAD + '''
import logging, queue, warnings
warnings.simplefilter('always')
stale = []
def say(text, err=False):
    print(text, end="", file=sys.stderr if err else sys.stdout)
'''
ENDS = [("", "passed"), ("assert False", "failed"), ("raise ValueError", "error"), ("sys.exit(0)", "error"), ("raise MyBase", "error"),
        ("return None", "passed"), ("assert 1 == 2, 'm'", "failed"), ("sys.stdout.close(); sys.stderr.close()", "passed"),
        ("sys.stdout = sys.stderr = None", "passed"), ("sys.stdout = io.StringIO(); print('lost')", "passed"),
        ("sys.stdout, sys.stderr = sys.stderr, sys.stdout; raise KeyError", "error")]


class Writer:
    """Statements that write, and what each stream then holds."""

    def __init__(self, rng, uid):
        self.rng, self.uid, self.k = rng, uid, 0
        self.text = {"stdout": "", "stderr": ""}
        self.lines = []

    def bit(self):
        self.k += 1
        if self.rng.random() < 0.1:
            return self.rng.choice([" ", "\n", "\t \n", "\n\n\n", ""])
        return f"<{self.uid}.{self.k}>" + "".join(self.rng.choice(BITS) for _ in range(self.rng.choice([0, 1, 2, 5])))

    def put(self, s, t):
        self.text[s] += t

    def some(self, count):
        r = self.rng
        for _ in range(count):
            s = r.choice(["stdout", "stderr"])
            t, way = self.bit(), r.choice(WAYS) if r.random() < 0.995 else "long"
            L = self.lines
            if way == "print":
                L.append(f"print({t!r})")
                s = "stdout"
                self.put(s, t + "\n")
            elif way == "print_file":
                u = self.bit()
                L.append(f"print({t!r}, {u!r}, sep='|', end='', file=sys.{s})")
                self.put(s, t + "|" + u)
            elif way == "write":
                L.append(f"sys.{s}.write({t!r})")
                self.put(s, t)
            elif way == "writelines":
                u = self.bit()
                L.append(f"sys.{s}.writelines([{t!r}, {u!r}])")
                self.put(s, t + u)
            elif way == "parts":
                L += [f"for c in {t!r}:", f"    sys.{s}.write(c)"]
                self.put(s, t)
            elif way == "flush":
                L.append(f"print({t!r}, file=sys.{s}, flush=True)")
                self.put(s, t + "\n")
            elif way == "thread":
                L += [f"t = threading.Thread(target=lambda: sys.{s}.write({t!r}))", "t.start(); t.join()"]
                self.put(s, t)
            elif way == "closed":
                L += [f"sys.{s}.close()", f"sys.{s}.write({t!r})"]
                self.put(s, t)
            elif way == "logging":
                t = t.split("\n")[0]
                L += [f"h = logging.StreamHandler(sys.{s})", "g = logging.Logger('l'); g.addHandler(h)", f"g.warning({t.replace('%', '')!r})"]
                self.put(s, t.replace("%", "") + "\n")
            elif way == "redirect":
                u = self.bit()
                L += ["with contextlib.redirect_stdout(io.StringIO()) as inner:", f"    print({t!r})", f"print({u!r})"]
                self.put("stdout", u + "\n")
            elif way == "stale":
                L += ["for f in stale:", "    if f is not sys.stdout and f is not sys.stderr:", f"        f.write({'stale' + t!r})", f"stale.append(sys.{s})"]
            elif way == "encoding":
                L.append(f"sys.{s}.write(str(type(sys.{s}.getvalue()) is str) if hasattr(sys.{s}, 'getvalue') else 'True')")
                self.put(s, "True")
            elif way == "helper":
                L.append(f"say({t!r}, {s == 'stderr'})")
                self.put(s, t)
            elif way == "swap":
                L += [f"old, sys.{s} = sys.{s}, io.StringIO()", "print('gone', file=sys." + s + ")", f"sys.{s} = old", f"sys.{s}.write({t!r})"]
                self.put(s, t)
            elif way == "displayhook":
                L.append("sys.displayhook(12345)")
                self.put("stdout", "12345\n")
            elif way == "long":
                u, times = self.bit() or "u", r.choice([500_000, 3_000_000])
                u = (u * 60)[:60]
                L.append(f"sys.{s}.write({u!r} * {times // 60})")
                self.put(s, u * (times // 60))
            elif way == "warning":
                L.append(f"warnings.warn_explicit({t!r}, UserWarning, 'none.py', 7)")
                self.put("stderr", f"none.py:7: UserWarning: {t}\n")
            elif way == "dup":
                L += [f"w = sys.{s}.write", f"w({t!r})"]
                self.put(s, t)
        return self


def plain(t):
    return t.encode("utf-8", "backslashreplace").decode("utf-8")


def build_module(rng, rel):
    lines, want = [PRE, "print('at import')", "sys.stderr.write('at import')"], {}
    uid = 0
    for k in range(rng.choice([1, 3, 6])):
        if rng.random() < 0.5:
            uid += 1
            w = Writer(rng, f"{rel}:{uid}").some(rng.choice([0, 1, 4, 12]))
            end, o = rng.choice(ENDS)
            lines += [f"def test_{k}():"] + ["    " + x for x in w.lines + [end or "pass"]] + [""]
            want[f"{rel}::test_{k}"] = (w.text, o)
            continue
        parts = {}
        lines.append(f"class TestC{k}:")
        for h in ("setup_method", "teardown_method"):
            uid += 1
            parts[h] = Writer(rng, f"{rel}:{uid}").some(rng.choice([0, 1, 3]))
            hend = rng.choice(["pass"] * 6 + ["raise ValueError('hook')"])
            lines += [f"    def {h}(self):"] + ["        " + x for x in parts[h].lines + [hend]] + [""]
            parts[h].bad = hend != "pass"
        for j in range(rng.choice([1, 2])):
            uid += 1
            w = Writer(rng, f"{rel}:{uid}").some(rng.choice([0, 1, 4]))
            end, o = rng.choice(ENDS[:7])
            lines += [f"    def test_{j}(self):"] + ["        " + x for x in w.lines + [end or "pass"]] + [""]
            up, down = parts["setup_method"], parts["teardown_method"]
            seq = [up] if up.bad else [up, w, down]
            o = "error" if up.bad or down.bad else o
            want[f"{rel}::TestC{k}::test_{j}"] = ({s: "".join(x.text[s] for x in seq) for s in ("stdout", "stderr")}, o)
    return "\n".join(lines) + "\n", want


def judge(r, want):
    if r.results is None:
        return f"no readable report (status {r.rc})"
    got = by_nodeid(r.results)
    if set(got) != set(want):
        return f"results for {sorted(set(got) ^ set(want))[:3]} missing or in excess"
    for nid, (text, o) in want.items():
        x = got[nid][0]
        for s in ("stdout", "stderr"):
            a, b = x[s], plain(text[s])
            if a != b:
                k = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
                return f"{s} of {nid!r} ({x['outcome']}) differs at {k}: {a[max(0, k - 30):k + 60]!r} instead of {b[max(0, k - 30):k + 60]!r}"
        if x["outcome"] != o:
            return f"{nid!r} is {x['outcome']} instead of {o}"
    return None


def main(ck):
    site, base, rng = build.python_site(), ck.scratch(), ck.rng
    for rnd in ck.rounds(ck.n(3, 12), ck.n(8, 300)):
        jobs = []
        for k in range(32):
            root = os.path.join(base, f"p{rnd}-{k}")
            want, texts = {}, {}
            for f in rng.choice([["test_a.py"], ["test_a.py", "d/test_b.py"]]):
                texts[f], w = build_module(random.Random(rng.random()), f)
                want.update(w)
                write_file(os.path.join(root, f), texts[f])
            jobs.append((root, texts, want))
        envs = [{}, {"PYTHONIOENCODING": "ascii"}, {"PYTHONUTF8": "0", "LC_ALL": "C", "LANG": "C"}, {"PYTHONUNBUFFERED": "1"}]
        done = W.pmap(lambda j: W.WorkerRun(site, j[0], [os.path.join(j[0], f) for f in j[1]], env=rng.choice(envs)), jobs)
        for (root, texts, want), r in zip(jobs, done):
            ck.case(sorted(texts.items()), nontrivial=sum(bool(t["stdout"] or t["stderr"]) for t, _ in want.values()) > 1,
                    sample={n: {s: t[s][:60] for s in t} for n, (t, _) in list(want.items())[:2]})
            ck.count("tests", len(want))
            ck.count("characters", sum(len(t[s]) for t, _ in want.values() for s in t))
            bad = judge(r, want)
            if bad:
                ck.violation(bad[:1200], {"texts": texts, "expected": want, **r.brief()})
            ck.drop(root)
            ck.drop(root + ".run")


Check("C08", "Generated tests, methods and hooks writing 0-12 pieces of text each (control characters, separators, non-ASCII, lone "
      "surrogates, long) in 17 ways (print, megabytes at once, write, threads, logging, closed, swapped, redirected and stale streams) and ending in "
      "11 ways; both captured texts compared with everything written, character by character, under four stream environments. "
      "Non-trivial: at least two tests that write; distinct by texts.",
      assumptions=["lone surrogates are shown escaped", "text written to file descriptors or by child processes is not captured"]).main(main, 40)
