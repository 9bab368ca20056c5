"""C19: project configuration reading (differential monitor against Python's tomllib, hostile documents)."""
import os
import sys
import tomllib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
from vlib import Check, Driver

KEYS = ["testpaths", "python_files", "python_classes", "python_functions"]
EMPTY = {k: [] for k in KEYS}
STRINGS = ["test_*.py", "*_test.py", "check_*.py", "Test*", "*Suite", "test", "tests", "a/b", "./x", "../up", "", " ", "ü日本", "a b", "[ab]*", "t?st", "\\d",
           'quo"te', "it's", "tab\there", "nl\nhere", "x" * 300, "{arch}", "#hash", "a,b", "*", "**", "a=b", "\u2028", "😀", "null\u0000ish", "/abs/dir", "~/tests", "~", "$HOME/t", "${HOME}", "%(x)s", "%%", "a/../b", "a;b", "tests/", "a//b"]


def toml_str(rng, s):
    basic = '"' + "".join(
        {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t"}.get(c, c if ord(c) >= 32 and ord(c) != 127 else f"\\u{ord(c):04x}") for c in s) + '"'
    forms = [basic]
    if all(ord(c) >= 32 and c != "'" and ord(c) != 127 for c in s):
        forms.append("'" + s + "'")
    if "'''" not in s and all(ord(c) >= 32 and ord(c) != 127 or c in "\n\t" for c in s) and not s.startswith("\n") and not s.endswith("'"):
        forms.append("'''" + s + "'''")
    return rng.choice(forms)


def toml_list(rng, items):
    sep = rng.choice([", ", ",", ",\n    ", " ,\t"])
    body = sep.join(items)
    if items and rng.random() < 0.3:
        body += ","
    if rng.random() < 0.3:
        body = f"\n  {body}  # comment ] \n"
    return f"[{body}]"


def odd(rng):
    return rng.choice(["1", "-7", "1.5", "true", "false", '"test_*.py"', "''", "{}", '{ a = ["x"] }', "[1, 2]", "[[\"a\"]]", "[true]", "1979-05-27", "07:32:00",
                       "inf", "nan", "0xff", "[]", "[{}]", "[1.0, \"mixed\"]"])


def document(rng):
    """A TOML document and nothing else; tomllib says what it means."""
    strings = lambda k: [rng.choice(STRINGS) if rng.random() < 0.8 else "p%d_*" % rng.randrange(1000) for _ in range(k)]
    lines = []
    for k in rng.sample(KEYS + ["python_file", "Testpaths", "filterwarnings", "addopts", "norecursedirs"], rng.randrange(0, 8)):
        r = rng.random()
        if r < 0.65:
            v = toml_list(rng, [toml_str(rng, s) for s in strings(rng.choice([0, 1, 1, 2, 3, 5, 40]))])
        elif r < 0.75:
            v = toml_list(rng, [toml_str(rng, s) for s in strings(2)] + [odd(rng)] + [toml_str(rng, "after")])
        else:
            v = odd(rng)
        kk = rng.choice([k, f'"{k}"', f"'{k}'"]) if rng.random() < 0.3 else k
        lines.append((kk, v))
    r = rng.random()
    pre = rng.choice(["", "[build-system]\nrequires = [\"maturin>=1.0\"]\n", "# only a comment\n", "[project]\nname = \"x\"\ndynamic = [\"version\"]\n"])
    post = rng.choice(["", "\n[tool.ruff]\nline-length = 120\n", "\n[tool.pytest.other]\ntestpaths = [\"wrong\"]\npython_files = [\"wrong\"]\n", "\n[tool.pytest]\nx = 1\n", "\n[[tool.x]]\na=1\n[[tool.x]]\n"])
    if r < 0.6:
        body = rng.choice(["[tool.pytest.ini_options]", "[ tool . pytest . ini_options ]", '["tool"."pytest".\'ini_options\']', "[tool.pytest.ini_options] # c"]) + "\n"
        body += "".join(f"{k}{rng.choice([' = ', '=', '  =  '])}{v}\n" for k, v in lines)
    elif r < 0.7:
        body = "[tool.pytest]\n" + "".join(f"ini_options.{k} = {v}\n" for k, v in lines)
        if "[tool.pytest]" in post:
            post = ""
    elif r < 0.75:
        inl = ", ".join(f"{k} = {v}" for k, v in lines if "\n" not in v)
        body = f"[tool.pytest]\nini_options = {{ {inl} }}\n"
        if "[tool.pytest]" in post:
            post = ""
    elif r < 0.8:
        body = "[tool]\npytest.ini_options = " + odd(rng) + "\n"
    elif r < 0.85:
        body = "[tool]\npytest = " + odd(rng) + "\n"
        post = ""
    elif r < 0.9:
        body, pre, post = "tool = " + odd(rng) + "\n", "", ""
    elif r < 0.95:
        body = "[[tool.pytest.ini_options]]\n" + "".join(f"{k} = {v}\n" for k, v in lines)
    else:
        body = rng.choice(["[tool.pytest_ini_options]\n", "[pytest.ini_options]\n", "[tool.Pytest.ini_options]\n", "[pytest]\n", "[tool.pytest]\n", "[ini_options]\n", "[tool.pytest.ini_options.x]\n", "[tool.ini_options]\n"]) + "".join(f"{k} = {v}\n" for k, v in lines)
    text = pre + body + post
    if rng.random() < 0.1:
        text = text.replace("\n", "\r\n")
    return text


def meaning(text):
    """(config, valid): what the document lists; settings of other types are empty."""
    try:
        doc = tomllib.loads(text)
    except (tomllib.TOMLDecodeError, RecursionError):
        return None
    ini = doc
    for k in ("tool", "pytest", "ini_options"):
        ini = ini.get(k) if isinstance(ini, dict) else None
    out = {}
    for k in KEYS:
        v = ini.get(k) if isinstance(ini, dict) else None
        out[k] = [x for x in v if isinstance(x, str)] if isinstance(v, list) else []
    return out


def norm(cfg):
    return {k: list(cfg[k]) for k in KEYS}


def mutate(rng, data):
    data = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 5])):
        r = rng.random()
        i = rng.randrange(len(data) + 1)
        if r < 0.3 and data:
            data[min(i, len(data) - 1)] = rng.randrange(256)
        elif r < 0.5:
            data[i:i] = rng.choice([b"\xff", b"\xc3", b"\x00", b"[", b"]", b'"', b"=", b"\n", b"\xef\xbb\xbf", b"[[", b"'''", b"{"])
        elif r < 0.8:
            del data[i:]
        else:
            del data[i:i + rng.randrange(1, 6)]
    return bytes(data)


HOSTILE = [b"", b"\xff\xfe", b"\xef\xbb\xbf[tool.pytest.ini_options]\ntestpaths=['a']\n", b"\x00" * 1000, b"[" * 5000, b"a=" + b"[" * 400 + b"]" * 400, b"{", b"=", b"[tool", b"\n" * 10000,
           b"[tool.pytest.ini_options]\ntestpaths = [", b"[tool.pytest.ini_options]\ntestpaths = ['a'\n", b"[tool.pytest.ini_options]\ntestpaths=['a']\ntestpaths=['b']\n",
           b"[tool.pytest.ini_options]\nx = 99999999999999999999\npython_files=['a']\n", b"# \xff\n[tool.pytest.ini_options]\ntestpaths=['a']\n", b"k = '" + b"x" * 200000 + b"'\n"]


def main(ck):
    rng = ck.rng
    d = Driver(build.core())
    root = ck.scratch()

    def query(where):
        r = d.call(op="read_config", root=where)
        if "panic" in r or "died" in r:
            return None, r
        return {k: r[k] for k in KEYS}, r

    def fixed(name, make):
        where = os.path.join(root, name)
        os.makedirs(where, exist_ok=True)
        make(os.path.join(where, "pyproject.toml"))
        got, r = query(where)
        ck.case(("place", name), sample={"place": name, "reply": r})
        return got, r

    good = '[tool.pytest.ini_options]\ntestpaths = ["a"]\npython_files = ["b"]\npython_classes = ["c"]\npython_functions = ["d"]\n'
    want = dict(zip(KEYS, (["a"], ["b"], ["c"], ["d"])))
    for name, make, exp in [
        ("absent", lambda p: None, EMPTY), ("dir", lambda p: os.makedirs(p, exist_ok=True), EMPTY),
        ("dangling", lambda p: os.symlink("nowhere", p), EMPTY), ("loop", lambda p: os.symlink("pyproject.toml", p), EMPTY),
        ("plain", lambda p: open(p, "w").write(good), want),
        ("link", lambda p: (open(p + ".real", "w").write(good), os.symlink(p + ".real", p)), want),
    ]:
        got, r = fixed(name, make)
        if got != exp:
            ck.violation(f"configuration file '{name}': {got}", {"name": name, "reply": r})
    got, r = query(os.path.join(root, "no", "such", "dir"))
    if got != EMPTY:
        ck.violation("missing root directory", {"reply": r})

    path = os.path.join(root, "p", "pyproject.toml")
    os.makedirs(os.path.dirname(path))

    def check(data, kind):
        with open(path, "wb") as f:
            f.write(data)
        try:
            text = data.decode("utf-8")
        except UnicodeDecodeError:
            text = None
        exp = meaning(text) if text is not None else None
        got, r = query(os.path.dirname(path))
        nontrivial = exp is not None and any(exp.values()) or kind != "valid"
        ck.case((kind, data), nontrivial=nontrivial, sample={"kind": kind, "document": data[:300].decode("utf-8", "replace"), "read": got})
        ck.count(f"documents_{kind}" + ("" if exp is not None else "_rejected_by_reference"))
        rep = {"document": data.decode("utf-8", "backslashreplace"), "reply": r, "expected": exp}
        if got is None:
            ck.violation(f"reading the configuration aborted: {r}", rep)
        elif kind == "valid" and norm(got) != norm(exp):
            ck.violation(f"configuration read as {got}, the file lists {exp}", rep)
        elif kind != "valid" and norm(got) != norm(EMPTY) and (exp is None or norm(got) != norm(exp)):
            # a mutated document may be accepted by one TOML reader and not by the other, but nothing may be invented
            if exp is not None or text is None:
                ck.violation(f"damaged configuration read as {got}, the file lists {exp}", rep)
            else:
                ck.count("accepted_only_by_the_crate")

    for h in HOSTILE:
        check(h, "hostile")
    for size in [70_000, 300_000, 2_000_000]:       # the settings before, between and after much else
        filler = rng.choice(["# " + "x" * 78 + "\n", "\n"])
        for text in (filler * (size // len(filler)) + good, good + "\n[tool.other]\n" + "".join(f"k{i} = 'some value'\n" for i in range(size // 25)),
                     good + "x = '''" + "y\n" * (size // 2) + "'''\n", good.replace('["b"]', repr([f"p{i}_*.py" for i in range(size // 20)]))):
            check(text.encode(), "valid")
    for _ in ck.rounds(ck.n(2500, 20000), ck.n(6000, 200000)):
        text = document(rng)
        if meaning(text) is None:
            ck.count("generator_rejected")
            continue
        data = text.encode()
        check(data, "valid")
        if rng.random() < 0.4:
            check(mutate(rng, data), "mutated")
    if ck.counts.get("documents_valid", 0) < 500:
        raise Exception("too few valid documents generated")


Check("C19", "Seeded TOML documents (settings with any string content, list styles, quoting, wrong types at every level, decoys in other tables), "
      "byte-level mutations of them, fixed hostile files, and missing/linked/directory files. Non-trivial: the document sets something or is damaged; "
      "distinct by content.", assumptions=["tomllib is the reference for what a document lists; where only one of the two readers accepts a damaged document, "
                                           "either answer is accepted unless it contradicts the reference"]).main(main, 500)
