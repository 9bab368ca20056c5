"""Random projects of the subset that static collection supports (see DESIGN.md), for C23, C25, C26.

native=False: only pytest's own decorators, any import form pytest understands; the oracle is pytest.
native=True: rtest's and pytest's decorators, import forms the native worker understands; every body logs itself.
"""
import abc
import os

from vlib import RUNTIME, write_file

DIRS = ["unit", "api", "a-b", "x y", "é", "k=v", "v1.2", "tests", "deep", "core", "Build", "env", "build2", "rebuild", "my.eggs", "xvenv", "venv2", "cvs", "dist-", "a.egg.d"]
SKIPPED = ["build", "dist", ".hidden", "node_modules", "__pycache__", "venv", "x.egg", "CVS", "_darcs"]
PACKAGES = ["pkg", "lib", "suite", "shared", "test", "wave", "turtledemo"]      # some named like standard modules
STDLIB = ["colorsys", "wave", "sunau", "chunk", "nntplib"]          # modules nothing here needs, which a project's own may hide
BUILTIN = ["time", "errno", "math", "marshal"]                     # names of built-in modules, free inside packages
PLAIN = ["None", "None", "None", "3", "True", "'text'", "1.5"]
WORDS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"]

CONFIGS = [
    {}, {}, {}, {},
    {"python_files": ["check_*.py"]},
    {"python_files": ["*_spec.py", "test_*.py"]},
    {"python_files": ["*.py"]},
    {"python_files": ["test_*", "check*"]},
    {"python_files": ["[tc]*_?.py", "test_*.py"]},
    {"python_classes": ["Check*", "*Suite"]},
    {"python_classes": ["Test", "Spec"]},
    {"python_classes": ["*"]},
    {"python_functions": ["check_*", "test_*"]},
    {"python_functions": ["test", "it_"]},
    {"python_functions": ["*_ok", "te?t_*"]},
    {"python_functions": ["check_*", "*_ok"]},
    {"python_functions": ["it_"], "python_classes": ["Spec", "Check*"]},
    {"python_classes": ["[TS]*"], "python_functions": ["[!_]*_ok", "test"]},
]
FUNCTIONS = ["test_a", "test_b", "test_c", "test", "testing", "test_éa", "check_a", "check_b", "it_a", "a_ok", "helper", "_test", "Test_f",
             "tezt_q", "test_A", "TEST_b", "test_ok", "setup_x", "test_1", "test__"]
CLASSES = ["TestA", "TestB", "TestC", "TestÉ", "Test", "Testa", "CheckA", "SpecA", "ASuite", "Helper", "Base", "Mixin", "_Test", "testA", "TestOne"]

# (source text, id part that pytest derives from it; None: positional)
SCALARS = [("1", "1"), ("0", "0"), ("-3", "-3"), ("+4", "4"), ("0x10", "16"), ("1_000", "1000"), ("12345678901234567890123", "12345678901234567890123"),
           ("1.5", "1.5"), ("-0.0", "-0.0"), ("1e300", "1e+300"), ("1e-7", "1e-07"), ("100.0", "100.0"), ("1e16", "1e+16"), ("123456789012345.6", "123456789012345.6"),
           ("True", "True"), ("False", "False"), ("None", "None"),
           ("'a'", "a"), ("'b c'", "b c"), ('"d\\ne"', "d\\ne"), ("'é'", "\\xe9"), ("'日本'", "\\u65e5\\u672c"), ("'😀'", "\\U0001f600"), ("'/x/y'", "/x/y"),
           ("'q::r'", "q::r"), ("'[z]'", "[z]"), ("'t' 'u'", "tu"), ("r'\\d'", "\\\\d"), ("'''m'''", "m"), ("'\\t'", "\\t"), ("'\\x00'", "\\x00"), ("'x' * 1", None),
           ("'a.py'", "a.py"), ("','", ","), ("' '", " "), ("'\"'", '"'), ('"\'"', "'"), ("'\\\\n'", "\\\\n"), ("'~'", "~"), ("'\\x7f'", "\\x7f"),
           ("--3", "3"), ("-(5)", "-5"), ("+-2", "-2"), ("- -7.5", "7.5"), ("9223372036854775807", "9223372036854775807"), ("-9223372036854775808", "-9223372036854775808"),
           ("9223372036854775808", "9223372036854775808"), ("--98765432109876543210", "98765432109876543210"), ("1e-5", "1e-05"), ("1.5e-5", "1.5e-05"), ("0.0001", "0.0001"),
           ("0.00012", "0.00012"), ("9e15", "9000000000000000.0"), ("1.25e16", "1.25e+16"), ("1e22", "1e+22"), (".5", "0.5"), ("5.", "5.0"), ("0b101", "5"), ("0o17", "15"),
           ("'\\x80'", "\\x80"), ("'\\xff'", "\\xff"), ("'\\u0100'", "\\u0100"), ("'\\uffff'", "\\uffff"), ("'\\x1f'", "\\x1f"), ("'\\r'", "\\r"), ("'a-b'", "a-b"), ("'-'", "-"),
           ("'\\x0c'", "\\x0c"), ("'\\v'", "\\x0b"), ("'\\a'", "\\x07"), ("-0", "0"), ("+0", "0"), ("-0.5", "-0.5"), ("0.0", "0.0"), ("--0", "0"), ("1e17", "1e+17"), ("1e15", "1000000000000000.0"),
           ("-1e-9", "-1e-09"), ("1e100", "1e+100"), ("5e-324", "5e-324"), ("0.1", "0.1"), ("1E5", "100000.0"), ("'\\u2028'", "\\u2028"), ("'\\U0010ffff'", "\\U0010ffff"), ("'e\\u0301'", "e\\u0301"), ("1_0.5_0", "10.5")]
SCALARS = [s for s in SCALARS if s[1] is not None]
OPAQUE = ["[1, 2]", "(1, 2)", "{'k': 1}", "{1, 2}", "object()", "dict(a=1)", "[]", "()", "{}", "[[1], (2,)]", "Thing(3)", "Thing(x=[1])", "[Thing, len]", "(abs,)", "[[len], {'k': Thing}]"]
FAILING = ["; assert False", "; raise ValueError('x')", "; 1 / 0", "; assert [] == [1], 'm'", "; int('q')"]
DYNAMIC = ["[i for i in range(3)]", "list(range(2))", "DATA_FROM_ELSEWHERE", "tuple(x for x in 'ab')", "sorted({'p': 1, 'q': 2})", "[1] + [2]", "[~5, 2]",
           "[not 0, 3]", "[b'by', 1]", "[f'{1}x', 'y']", "[*'ab']", "[1 + 2j, 3]", "[-True, +True]", "['a' + 'b', 'c']", "[2 ** 3, 7 // 2]", "('z' * 3,)",
           "[Thing, 3]", "(len, 'k')", "[pytest.ExitCode.OK, 2]", "[1, __name__]"]
PARAMS = ["[pytest.param(1, id='p'), 2]", "[pytest.param('a', marks=pytest.mark.slow), 'b']", "[1, pytest.param((1, 2))]", "(pytest.param(1, marks=[pytest.mark.skip]),)"]
ENUM = ["class Colour(Enum):\n    RED = 1\n    GREEN = 'g'\n", [("Colour.RED", "Colour.RED"), ("Colour.GREEN", "Colour.GREEN")]]


class Namer:
    def __init__(self):
        self.n = 0

    def __call__(self, stem):
        self.n += 1
        return f"{stem}{self.n}"


class Module:
    """One module: its text is grown statement by statement; `shadow` are Python classes that only prove the MRO sound."""

    def __init__(self, gen, rel, helper):
        self.gen, self.rel, self.helper = gen, rel, helper
        self.r = gen.rng
        self.head = ["import pytest"] + (["import rtest"] if gen.native else [])
        self.body = []
        self.classes = {}       # usable as bases here: expression -> shadow class
        self.own = {}           # top-level classes by name
        self.enum = False
        self.cases = []         # unittest classes
        self.alias = {}         # decorator module -> spelling
        self.shared = {}        # argument names -> name of a decorator for them
        self.pool = None        # the few names that the methods of a deep hierarchy have

    # --- decorators ---
    def mark(self, which):
        """Spelling of pytest.mark.parametrize / rtest.mark.cases in this module, whose import it adds."""
        if which not in self.alias:
            mod, name = which.split(".mark.")
            a = self.gen.name("m")
            form = self.r.choice(["plain"] * 4 + ["as", "mark", "markas", "named", "namedmark"])
            if form == "plain":
                self.alias[which] = which
            elif form == "as":
                self.head.append(f"import {mod} as {a}")
                self.alias[which] = f"{a}.mark.{name}"
            elif form == "named":
                self.head.append(f"{a} = {which}")
                self.alias[which] = a
            elif form == "namedmark":
                self.head.append(f"{a} = {mod}.mark")
                self.alias[which] = f"{a}.{name}"
            elif form == "mark" and not any(x.startswith("mark.") for x in self.alias.values()):
                self.head.append(f"from {mod} import mark")
                self.alias[which] = f"mark.{name}"
            else:
                self.head.append(f"from {mod} import mark as {a}")
                self.alias[which] = f"{a}.{name}"
        return self.alias[which]

    def values(self, k, nargs):
        """k cases of distinct ids: [(source, id or None)]"""
        r, pool = self.r, list(SCALARS)
        if self.r.random() < 0.2:
            if not self.enum:
                self.enum = True
                self.head.append("from enum import Enum")
                self.body.insert(0, ENUM[0])
            pool += ENUM[1] * 3
        if self.gen.native and nargs == 1 and r.random() < 0.08:    # the same ids again, and ones like those made of them
            self.gen.count("like_ids")
            like = [(repr(x), x) for x in ["a", "a", "a", "a_1", "a_2", "a_1_1", "b", "b"]]
            return [r.choice(like) for _ in range(k + 2)]
        out, seen = [], set()
        for _ in range(k * 3):
            if len(out) == k:
                break
            if nargs == 1:
                if r.random() < 0.2:
                    src, i = r.choice(OPAQUE), f"#{len(out)}"
                else:
                    src, i = r.choice(pool)
            else:
                parts = [(r.choice(OPAQUE), f"#{len(out)}") if r.random() < 0.15 else r.choice(pool) for _ in range(nargs)]
                src = ", ".join(p[0] for p in parts)
                src = f"[{src}]" if r.random() < 0.2 else f"({src})"
                i = "-".join(p[1] for p in parts)
            if i not in seen or (self.gen.native and r.random() < 0.3):
                seen.add(i)
                out.append((src, i))
        return out

    def decorator(self, args, dynamic_ok=True, once=True):
        """Source lines of one case decorator for these argument names; once: it applies to one collected test only.

        pytest escapes given ids once more for every further test they apply to, which is no model for anyone."""
        r, g = self.r, self.gen
        which = r.choice(["rtest.mark.cases", "pytest.mark.parametrize"]) if g.native else "pytest.mark.parametrize"
        deco = self.mark(which)
        if len(args) == 1:
            names = r.choice([repr(args[0]), f'"{args[0]}"', f"'{args[0]} '"]) if not g.native else repr(args[0])
        else:
            names = r.choice([repr(",".join(args)), repr(", ".join(args)), repr(list(args)), repr(tuple(args))])
        if dynamic_ok and g.dynamic and len(args) == 1 and r.random() < 0.12:
            self.gen.count("dynamic_decorators")
            src = r.choice(DYNAMIC if g.native else DYNAMIC + PARAMS)
            if src == "DATA_FROM_ELSEWHERE":
                self.head.append("from string import digits as DATA_FROM_ELSEWHERE" if r.random() < 0.5 else "DATA_FROM_ELSEWHERE = list('xy')[:2]")
            return [f"@{deco}({names}, {src})"]
        vals = self.values(r.choice([1, 2, 2, 3, 5]), len(args))
        if len(args) == 1 and r.random() < 0.15:        # a sequence of one name: pytest's entries are then sequences too
            names = r.choice([repr(list(args)), repr(tuple(args))])
            if "pytest" in which:
                vals = [(r.choice(["({},)", "[{}]"]).format(src), i) for src, i in vals]
        opening, closing = r.choice([("[", "]")] * 3 + [("(", ",)")])
        ids = ""
        if r.random() < 0.25:
            pool = ["one", "two", "three", "fo-ur", "f ive", "s[i]x", "a::b", "sev/en", "8"] + (["ü"] if once else [])
            if once and r.random() < 0.3:
                pool.append("")
            chosen = r.sample(pool, len(vals))
            entries = []
            for (src, i), c in zip(vals, chosen):
                entries.append("None" if r.random() < 0.2 and i not in chosen and (once or "\\" not in i) else repr(c))
            inner = ", ".join(entries)
            if len(args) == 1 and names[0] in "'\"" and r.random() < 0.3:      # what is only known when it runs has a known id then
                vals = [(r.choice(["Thing", "len", "pytest.ExitCode.OK", src]) if e != "None" else src, i) for (src, i), e in zip(vals, entries)]
            ids = f", ids=[{inner}]" if r.random() < 0.7 else f", ids=({inner},)"
            if r.random() < 0.25 and dynamic_ok and g.dynamic and r.random() < 0.3:
                g.count("dynamic_decorators")
                name = g.name("IDS")
                self.head += r.choice([[f"{name} = ['former', 'one']", f"{name} = list([{inner}])"], [f"{name} = [{entries[0]}]", f"{name} += [{', '.join(entries[1:])}]"],
                                       [f"{name}: list = ['former']", f"{name}: list = [*[{inner}]]"]])
                ids = f", ids={name}"
            elif r.random() < 0.25:
                ids = f", ids={self.constant(f'[{inner}]')}"
        sep = ", " if r.random() < 0.7 else ",\n    "
        values = f"{opening}{sep.join(v[0] for v in vals)}{closing}"
        form = "{n}, {v}{i}"
        if r.random() < 0.2:
            g.count("keyword_decorators")
            form = r.choice(["{n}, argvalues={v}{i}", "argnames={n}, argvalues={v}{i}"] + ["argvalues={v}{i}, argnames={n}"] * (not g.native))
        made = f"{deco}({form.format(n=names, v=values, i=ids)})"
        if r.random() < 0.12:       # given a name first, under which it may be used again
            g.count("named_decorators")
            name = g.name("_shared")
            self.body.append(f"{name} = {made}")
            if not once:
                self.shared[tuple(args)] = name
            made = name
        elif not once and tuple(args) in self.shared:
            g.count("shared_decorators")
            made = self.shared[tuple(args)]
        return [f"@{made}"]

    def constant(self, source):
        """Name of a new constant in this module that has this value."""
        r, g = self.r, self.gen
        g.count("constants")
        name = g.name("IDS")
        form = r.choice(["plain", "annotated", "again", "class", "nested"])
        if form == "plain":
            self.head.append(f"{name} = {source}")
        elif form == "annotated":
            self.head.append(f"{name}: list = {source}")
        elif form == "again":
            self.head += [f"{name} = ['former']", f"{name} = {source}"]
        elif form == "class":
            self.head.append(f"class K{name}:\n    {name} = {source}")
            return f"K{name}.{name}"
        else:
            self.head.append(f"class K{name}:\n    {name} = ['outer']\n    class Inner:\n        {name} = {source}")
            return f"K{name}.Inner.{name}"
        return name

    def decorations(self, own_args, dynamic_ok=True, once=True):
        """Decorator lines covering all of own_args, plus harmless ones."""
        r, out = self.r, []
        rest = list(own_args)
        while rest:
            k = min(len(rest), r.choice([1, 1, 2, 3]))
            out.append(self.decorator(rest[:k], dynamic_ok, once))
            rest = rest[k:]
        if self.gen.native and own_args and out and r.random() < 0.15:
            # cases for both runners: those of rtest count, where they concern an argument of both
            mine = [x for x in out if "pytest" not in x[0] and self.rtest_made(x[0])]
            if mine:
                extra = r.choice(own_args)
                line = self.mark("pytest.mark.parametrize")
                if r.random() < 0.5:
                    out.append([f"@{line}({extra!r}, [77, 78])"] if self.covers(mine, extra) else ["@pytest.mark.both"])
                elif self.covers(mine, extra):
                    out.append([f"@{line}('{extra},zz', [(77, 1), (78, 2)])"])
                self.gen.count("both_decorators")
        r.shuffle(out)
        if r.random() < 0.04:
            if "def _same(f): return f" not in self.head:
                self.head.append("def _same(f): return f")
            out.insert(r.randrange(len(out) + 1), ["@_same"])
        if r.random() < 0.1:
            skip = r.choice(["@pytest.mark.skip", "@pytest.mark.skip(reason='no')", "@pytest.mark.slow", "@pytest.mark.xfail(reason='x')"]
                            + (["@rtest.mark.skip()", "@rtest.mark.skip(reason='r')"] if self.gen.native else []))
            out.insert(r.randrange(len(out) + 1), [skip])
        return [line for d in out for line in d]

    def rtest_made(self, line):
        return "rtest.mark.cases" in self.alias and line.startswith("@" + self.alias["rtest.mark.cases"] + "(")

    @staticmethod
    def covers(decorators, arg):
        import re
        return any(re.search(rf"""['", ]{arg}['", ]""", d[0].split("(", 1)[1][:40]) for d in decorators)

    # --- definitions ---
    def logline(self, uid, args):
        if not self.gen.log:
            return self.r.choice(["pass", "assert True", "x = 1; assert x", "..."])
        ends = self.r.choice(FAILING) if self.r.random() < self.gen.failing else ""
        mark = ["'FAILS'"] if ends else []
        return f"ev({', '.join(['\'call\'', repr(uid), *mark, *args])}){ends}"

    def function(self, name, indent="", owner=None):
        r, g = self.r, self.gen
        args = r.sample(["p", "q", "r", "s"], r.choice([0, 0, 0, 1, 1, 2, 3] if not self.pool else [0, 1, 1, 1, 2]))
        first = []
        if owner is not None:
            first = ["self"]
        lines = [indent + x.replace("\n", "\n" + indent) for x in self.decorations(args, once=owner is None)]
        cls_args = list(g.class_args) if owner is not None else []
        static = owner is not None and not cls_args and not args and r.random() < 0.06
        if static:
            lines = []      # pytest does not collect a static or class method that has a mark
            which = r.choice(["staticmethod", "classmethod"])
            lines.append(f"{indent}@{which}")
            first = [] if which == "staticmethod" else ["cls"]
        kind = "async def" if r.random() < 0.05 and not g.native else "def"
        params = first + args + [f"{a}=None" if g.native else a for a in cls_args]
        if any("zz'" in x for x in lines):
            params.append("zz=None")
        tp = "[T]" if r.random() < 0.03 else ""
        ret = " -> None" if r.random() < 0.3 else ""
        body = self.logline(f"{self.rel}::{owner + '.' if owner else ''}{name}", args + cls_args)
        if r.random() < 0.1:
            lines.append(f"{indent}{kind} {name}{tp}({', '.join(params)}){ret}: {body}")
        else:
            lines.append(f"{indent}{kind} {name}{tp}({', '.join(params)}){ret}:")
            if r.random() < 0.15:
                lines.append(f'{indent}    """def test_in_docstring(): pass"""')
            if r.random() < 0.08:
                lines += [f"{indent}    def test_inner(): pass", f"{indent}    class TestInner:", f"{indent}        def test_x(self): pass"]
            lines.append(f"{indent}    {body}")
        return lines

    def klass(self, name, bases, test_named):
        """bases: expressions of self.classes; test_named: whether name matches the configured class patterns."""
        r, g = self.r, self.gen
        lines = []
        ancestors = {k for b in bases for k in self.classes[b].__mro__}
        used = {a for k in ancestors for a in k.__dict__.get("deco", ())}
        spare = [a for a in g.class_args if a not in used]
        shadow = {"deco": ()}
        if spare and (test_named or self.helper) and r.random() < 0.35:
            take = spare[:r.choice([1, 1, 2])]
            lines += self.decorator(take, once=False)
            shadow["deco"] = tuple(take)
        text = ", ".join(bases)
        plain = "object"
        parents = [self.classes[b] for b in bases]
        if r.random() < (0.25 if self.pool else 0.08):
            plain = r.choice(["ABC", "abc.ABC"])
            self.head.append("from abc import ABC" if plain == "ABC" else "import abc")
            try:
                type("X", (*parents, abc.ABC), {})
                parents.append(abc.ABC)
                text = ", ".join([*bases, plain])
            except TypeError:
                plain = "object"
        elif not bases and r.random() < 0.04:
            text = plain
        if r.random() < 0.05 and bases:
            text += ", metaclass=type"
        tp = "[T]" if r.random() < 0.03 and text != "object" else ""
        lines.append(f"class {name}{tp}({text}):" if text or r.random() < 0.1 else f"class {name}{tp}:")
        if r.random() < 0.1:
            lines.append('    """Docstring."""')
        members = []
        if test_named or self.helper:
            names = self.pool or FUNCTIONS
            members = r.sample(names, min(len(names), r.choice([0, 1, 1, 2, 3, 5])))
            if members and r.random() < (0.25 if self.pool else 0.08):
                members.append(r.choice(members))      # the last definition counts
        body = []
        for m in members:
            if r.random() < (0.25 if self.pool else 0.07):
                body.append(f"    {m} = {r.choice(PLAIN)}" if r.random() < 0.7 else f"    {m}: object = {r.choice(PLAIN)}")
            else:
                body += self.function(m, "    ", name)
                if r.random() < 0.05:
                    body.append("")
        if r.random() < (0.03 if self.pool else 0.06):
            body += r.choice([["    def __init__(self): pass"], ["    __slots__ = ()", "    def __init__(self): pass"], ["    def __init__(self, *a):", "        super().__init__(*a)"]])
        if r.random() < 0.08:
            body += ["    class Meta:", "        def check(self): pass"]
        if r.random() < 0.05:
            g.count("opted_out")
            body.insert(0, r.choice(["    __test__ = False", "    __test__: bool = False"]))
        if r.random() < 0.1:
            body += ["    limit = 3", "    def setup_method(self): pass"]
        lines += body or ["    pass"]
        self.body.append("\n".join(lines))
        k = type(name, tuple(parents) or (object,), shadow)
        self.classes[name] = self.own[name] = k

    def testcase(self, name):
        """A unittest.TestCase class, in one of its spellings, possibly inheriting from another."""
        r = self.r
        form = r.choice(["import unittest", "from unittest import TestCase", "import unittest as ut"])
        self.head.append(form)
        base = {"import unittest": "unittest.TestCase", "from unittest import TestCase": "TestCase", "import unittest as ut": "ut.TestCase"}[form]
        if self.cases and r.random() < 0.5:
            base = r.choice(self.cases)
        lines = [f"class {name}({base}):"]
        for m in r.sample(["test_a", "test_b", "test_c", "testing", "test", "helper", "setUp", "tearDown", "check_a"], r.choice([0, 1, 2, 4])):
            lines.append(f"    def {m}(self): " + (self.logline(f"{self.rel}::{name}.{m}", []) if not m.startswith(("s", "te", "h")) or m.startswith("test") else "pass"))
        if r.random() < 0.1:
            lines.append("    __test__ = False")
        self.body.append("\n".join(lines if len(lines) > 1 else lines + ["    pass"]))
        self.cases.append(name)

    def pick_bases(self, allowed):
        r = self.r
        cands = [e for e in self.classes if allowed(e)]
        for _ in range(4):
            pick = r.sample(cands, min(len(cands), r.choice([0, 1, 1, 1, 2, 3] if not self.pool else [1, 1, 2, 2, 2, 3])))
            if len({self.classes[p] for p in pick}) < len(pick):
                continue
            decorated = [p for p in pick if any(k.__dict__.get("deco") for k in self.classes[p].__mro__)]
            if len(pick) > 1 and decorated:
                args = [a for p in pick for k in self.classes[p].__mro__ for a in k.__dict__.get("deco", ())]
                if len(set(args)) < len(args):
                    continue
            try:
                type("X", tuple(self.classes[p] for p in pick) or (object,), {})
                return pick
            except TypeError:
                continue
        return []

    def text(self):
        r = self.r
        head = list(self.head)
        if self.gen.log:
            head.append("from rtv_log import ev")
        noise = ['TEXT = """\ndef test_in_string(): pass\nclass TestInString:\n    def test_x(self): pass\n"""',
                 "# def test_in_comment(): pass", "if False:\n    pass", "LIMIT = 3", "x = lambda: 0", "try:\n    import os\nexcept ImportError:\n    os = None",
                 "from typing import TYPE_CHECKING\nif TYPE_CHECKING:\n    from nowhere import Nothing", "type Alias = list[int]",
                 "if __name__ == '__main__':\n    pytest.main()", "def _gen():\n    yield from ()", "match 3:\n    case 3: pass\n    case _: pass",
                 "print(f'{1!r:>{4}}', end='')\n" if not self.gen.log else "_ = f'{1!r:>{4}}'", "with open(__file__) as _f: pass"]
        parts = ["\n".join(dict.fromkeys(head)), "class Thing:\n    def __init__(self, x=None): self.x = x\n"] + self.body
        for _ in range(r.choice([0, 0, 1, 2])):
            parts.insert(r.randrange(2, len(parts) + 1), r.choice(noise))
        t = r.choice(["\n\n", "\n"]).join(parts) + r.choice(["\n", "", "\n\n# end"])
        if r.random() < 0.02:
            self.gen.count("opted_out_files")
            t += "\n__test__ = False\n"
        if r.random() < 0.1:
            t = '"""Docstring."""\n' + t
        if r.random() < 0.07:
            t = t.replace("\n", "\r\n")
        if r.random() < 0.05:
            t = "\ufeff" + t
        return t


class Project:
    def __init__(self, rng, root, native, log=None, failing=0, paths=False):
        """paths: whether modules may be outside, for env(); log: whether bodies log their execution; failing: share of bodies that fail."""
        self.rng, self.root, self.native, self.log, self.failing = rng, root, native, native if log is None else log, failing
        self.name = Namer()
        self.counts, self.paths, self.outer = {}, [], paths
        self.files, self.links, self.tests = {}, {}, []
        self.elsewhere = []     # directories with tests outside the root
        self.unusual = []       # directories that are collected only if they are named
        self.config = dict(rng.choice(CONFIGS))
        self.dynamic = rng.random() < 0.5
        self.class_args = rng.choice([(), (), (), ("cx",), ("cx", "cy")])
        self.make()

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    # --- names under the configuration ---
    @staticmethod
    def matches(patterns, name):
        import fnmatch
        return any(name.startswith(p) or (set("*?[") & set(p) and fnmatch.fnmatchcase(name, p)) for p in patterns)

    def test_class(self, name):
        return self.matches(self.config.get("python_classes", ["Test"]), name)

    def test_file(self, name):
        import fnmatch
        return name.endswith(".py") and any(fnmatch.fnmatchcase(name, p) for p in self.config.get("python_files", ["test_*.py", "*_test.py"]))

    def file_name(self):
        r = self.rng
        stem = self.name("")
        for _ in range(40):
            n = r.choice(["test_{}.py", "test_{}.py", "{}_test.py"] + [".hid{}_test.py"] * self.native + ["check_{}.py", "m{}_spec.py", "test_é{}.py", "test_a-{}.py", "c{}_x.py"]).format(
                ("m" if r.random() < 0.5 else "") + stem)
            if n[0].isdigit():
                n = "z" + n
            if self.test_file(n):
                return n
        return None

    def make(self):
        r = self.rng
        # directories: (path, package path from a base directory or None)
        dirs = [("", None)]
        packages = []           # (dir, dotted, base dir)
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            parent, dotted = r.choice(dirs)
            if r.random() < 0.5:
                name = self.name(r.choice(PACKAGES))
                if not parent and r.random() < 0.3:
                    name = r.choice(PACKAGES)
                d = os.path.join(parent, name)
                if any(x[0] == d for x in dirs):
                    continue
                base = parent if dotted is None else next(b for p, q, b in packages if p == parent)
                path = name if dotted is None else f"{dotted}.{name}"
                dirs.append((d, path))
                packages.append((d, path, base))
                self.files[os.path.join(d, "__init__.py")] = r.choice(["", "", "'''Package.'''\n", "VALUE = 1\n"])
            else:
                d = os.path.join(parent, r.choice(DIRS) + (self.name("") if r.random() < 0.6 else ""))
                if not any(x[0] == d for x in dirs):
                    dirs.append((d, None))
        if self.test_file("__init__.py"):       # python_files = *.py: pytest collects packages' __init__ in its own way
            self.config.pop("python_files")
        names = [f for f in FUNCTIONS if self.matches(self.config.get("python_functions", ["test"]), f)]
        deep = r.sample(names, min(len(names), r.choice([1, 2, 2, 3]))) if r.random() < 0.4 else None
        self.deep = deep
        # helper modules: (module, dir, dotted or None)
        helpers = []
        like = {"": r.sample(STDLIB, 2), "pkg": r.sample(BUILTIN, 2)}
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            d, dotted = r.choice(dirs)
            if packages and r.random() < 0.3:       # beside the packages
                b = r.choice(packages)[2]
                d, dotted = next(x for x in dirs if x[0] == b)
            name = self.name(r.choice(["helpers", "base", "common", "mixins"]))
            names = like["pkg" if dotted else ""]
            if names and r.random() < 0.12:
                name = names.pop()
                self.count("named_like_standard")
            if self.test_file(name + ".py"):
                continue
            m = Module(self, os.path.join(d, name + ".py"), True)
            m.name, m.dir, m.dotted = name, d, f"{dotted}.{name}" if dotted else name
            m.base = d if dotted is None else next(b for p, q, b in packages if p == d)
            self.imports(m, helpers, packages)
            if deep and r.random() < 0.7:
                m.pool = deep
            for _ in range(r.choice([1, 2, 3])):
                n = r.choice(["BaseA", "BaseB", "Shared", "Contract", "_Hidden", "TestBase", "TestShared"])
                if n in m.own or n in {e.split(".")[0].split("[")[0] for e in m.classes}:
                    continue
                m.klass(n, m.pick_bases(lambda e: True), True)
            if r.random() < 0.15:
                m.head.append("from typing import Generic, TypeVar\nT = TypeVar('T')")
                m.body.append("class GenericBase(Generic[T]):\n    def test_generic(self" + "".join(
                    f", {a}=None" if self.native else f", {a}" for a in self.class_args) + "): " +
                    m.logline(f"{m.rel}::GenericBase.test_generic", []))
                m.classes["GenericBase"] = m.own["GenericBase"] = type("GenericBase", (object,), {"deco": ()})
            helpers.append(m)
        # modules that only pass on classes of others, by one name or another
        for k in range(r.choice([0, 0, 2, 4])):
            from_root = [h for h in helpers if h.base == "" and h.own]
            if not from_root:
                break
            h = next((h for h in reversed(from_root) if r.random() < 0.7), from_root[0])
            m = Module(self, self.name("passing") + ".py", True)
            if self.test_file(m.rel):
                break
            m.name, m.dir, m.dotted, m.base = m.rel[:-3], "", m.rel[:-3], ""
            n = r.choice(list(h.own))
            as_name = n if r.random() < 0.5 else self.name("Passed")
            m.head = [f"from {h.dotted} import {n}" + (f" as {as_name}" if as_name != n else "")]
            m.own = {as_name: h.own[n]}
            helpers.append(m)
            self.count("passing_modules")
        # re-exports through packages
        for d, dotted, base in packages:
            inside = [h for h in helpers if h.dir == d and h.own]
            if inside and r.random() < 0.3:
                h = r.choice(inside)
                n = r.choice(list(h.own))
                rel = r.random() < 0.5 and not self.native
                self.files[os.path.join(d, "__init__.py")] = f"from {'.' if rel else dotted + '.'}{h.name} import {n}\n"
                h.reexport = (dotted, n)
                if r.random() < 0.3 and not self.test_file(os.path.basename(d) + ".py"):     # Python prefers the package
                    self.files[d + ".py"] = f"class {n}:\n    def test_decoy(self): pass\n"
                    self.count("decoy_modules")
        # and through several of them
        for d, dotted, base in packages:
            init = os.path.join(d, "__init__.py")
            if "import" in self.files[init] or r.random() < 0.4:
                continue
            above = [h for h in helpers if h.own and h.base == base and "." in h.dotted and h.dotted.rpartition(".")[0] == dotted.rpartition(".")[0]]
            again = [h for h in helpers if getattr(h, "reexport", None) and h.base == base and (base == "" or not self.native)
                     and not (dotted + ".").startswith(h.dotted.rpartition(".")[0] + ".")]
            if again:
                h = r.choice(again)
                self.files[init] = f"from {h.reexport[0]} import {h.reexport[1]}\n"
                h.reexport = (dotted, h.reexport[1])
                self.count("reexport_chains")
            elif above and not self.native:
                h = r.choice(above)
                n = r.choice(list(h.own))
                self.files[init] = f"from ..{h.name} import {n}\n"
                h.reexport = (dotted, n)
                self.count("reexport_above")
        # test modules
        for d, dotted in dirs:
            for _ in range(r.choice([0, 1, 1, 2])):
                name = self.file_name()
                if name is None or (dotted and not name[:-3].isidentifier()):
                    continue
                self.test_module(d, dotted, name, helpers, packages)
        if not self.tests:
            self.test_module("", None, self.file_name() or "test_z.py", helpers, packages)
        self.unentered(dirs, helpers, packages)
        self.linked(dirs, helpers, packages)
        if self.native and r.random() < 0.2:        # outside the project
            d = os.path.join(self.root + ".x", r.choice(["ext", "tests", "é x"]))
            for d in [d, *([os.path.join(d, r.choice(DIRS))] if r.random() < 0.4 else [])]:
                self.apart(d, helpers, packages)
                self.elsewhere.append(d)
            self.count("elsewhere")
        for h in helpers:
            self.files[h.rel] = h.text()
        if helpers and self.outer and r.random() < 0.35:
            self.outside(helpers)
        # what must not be collected
        for _ in range(r.choice([0, 0, 1, 2])):
            d = os.path.join(r.choice(dirs)[0], r.choice(SKIPPED))
            if d in self.unusual or d in self.links:
                continue
            self.files[os.path.join(d, self.file_name() or "test_zz.py")] = "def test_excluded(): pass\nclass TestExcluded:\n    def test_x(self): pass\n"
        for n in r.sample(["notes.txt", "test_data.json", "test_s.pyi", "check_s.pyx", "test_w.pyw", "test_old.py.bak", "conftest.py", "setup.cfg2", "test_x.pyc.txt", "testfile"], r.choice([0, 1, 2])):
            if not self.test_file(n):
                self.files[os.path.join(r.choice(dirs)[0] if n != "conftest.py" else "", n)] = "" if n == "conftest.py" else "def test_not_python(: pass"
        if r.random() < 0.15:
            self.files[os.path.join(r.choice(dirs)[0], "empty_dir", "README")] = "nothing"
        plain = [t for t in self.tests if t[1] is None]
        if r.random() < 0.15 and plain:
            t, _ = r.choice(plain)
            n = self.file_name()
            if n:
                self.links[os.path.join(os.path.dirname(t), n)] = os.path.join(self.root, t)
        if r.random() < 0.25:
            existing = [d for d, _ in dirs if d]
            self.config["testpaths"] = r.sample(existing, min(len(existing), r.choice([1, 2]))) + (["no_such_dir"] if r.random() < 0.2 else [])
            if plain and r.random() < 0.4:
                self.config["testpaths"].insert(r.randrange(2), r.choice(plain)[0])
            if not [p for p in self.config["testpaths"] if p != "no_such_dir"]:
                self.config.pop("testpaths")
        self.dirs = dirs
        if self.config or r.random() < 0.2:
            lines = ["[tool.pytest.ini_options]"] + [f"{k} = [{', '.join(self.toml(x) for x in v)}]" for k, v in self.config.items()]
            self.files["pyproject.toml"] = "\n".join(lines) + "\n"
        for d, _ in dirs:
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for rel, text in self.files.items():
            write_file(os.path.join(self.root, rel), text)
        for rel, target in self.links.items():
            os.symlink(target, os.path.join(self.root, rel))

    def apart(self, d, helpers, packages):
        """A test module in d that only arguments which name d lead to."""
        n = self.file_name()
        if n:
            self.test_module(d, None, n, helpers, packages)
            self.tests.pop()

    def unentered(self, dirs, helpers, packages):
        """Directories with tests that are only entered if they are asked for, at any depth."""
        r = self.rng
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            d = os.path.join(r.choice(dirs)[0], r.choice([s for s in SKIPPED if s != "__pycache__"]))
            if any(d == u for u in self.unusual):
                continue
            self.apart(d, helpers, packages)
            self.unusual.append(d)
            if r.random() < 0.5:
                d = os.path.join(d, r.choice(DIRS) + self.name(""))
                self.apart(d, helpers, packages)
                self.unusual.append(d)
            self.count("unentered")

    def linked(self, dirs, helpers, packages):
        """Links to directories: to one with tests of its own, under a name that is entered or not, and ones that lead nowhere new."""
        r = self.rng
        plain = [d for d, dotted in dirs if dotted is None]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            ignored = r.random() < 0.3
            name = r.choice([s for s in SKIPPED if s != "__pycache__"]) if ignored else r.choice(DIRS) + self.name("")
            at, store = os.path.join(r.choice(plain), name), os.path.join(".store", self.name("s"))
            if at in self.links or at in self.unusual or any(d == at for d, _ in dirs):
                continue
            kept = len(self.tests)
            for d in [at] + ([os.path.join(at, r.choice(DIRS))] if r.random() < 0.4 else []):
                self.test_module(d, None, self.file_name() or f"test_{self.name('l')}.py", helpers, packages)
            if ignored:
                del self.tests[kept:]
                self.unusual.append(at)
            for rel in [f for f in self.files if f.startswith(at + os.sep)]:
                self.files[store + rel[len(at):]] = self.files.pop(rel)
            self.links[at] = os.path.join(self.root, store)
            self.count("linked_dirs")
        if self.native and r.random() < 0.3:        # pytest follows such links till the system gives up
            d = r.choice([d for d, _ in dirs])
            up = d
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                up = os.path.dirname(up)
            self.links[os.path.join(d, self.name("again"))] = os.path.join(self.root, up).rstrip("/")
            self.count("looping_links")
        elif self.native and r.random() < 0.3:      # the same files by another way
            d = r.choice(plain)
            if d and not any(os.path.dirname(x).startswith(d) for x in self.links):
                self.links[os.path.join(d.split(os.sep)[0] + self.name("too"))] = os.path.join(self.root, d)
                self.count("second_ways")

    def outside(self, helpers):
        """Directories for PYTHONPATH: modules the project imports, and others under names that are found earlier."""
        r = self.rng
        self.paths = [f"{self.root}.path{k}" for k in range(r.choice([1, 2]))]
        for h in helpers:
            at = r.randrange(len(self.paths))
            decoys = self.paths
            if h.rel == h.name + ".py" and r.random() < 0.5:
                write_file(os.path.join(self.paths[at], h.rel), self.files.pop(h.rel))
                decoys = self.paths[at + 1:]
                self.count("outside_modules")
            for d in decoys:
                if r.random() < 0.5:
                    parts = h.dotted.split(".")
                    for k in range(1, len(parts)):
                        write_file(os.path.join(d, *parts[:k], "__init__.py"), "")
                    write_file(os.path.join(d, *parts) + ".py",
                               "".join(f"class {n}:\n    def __init__(self): pass\n    def test_decoy(self): pass\n" for n in h.own))
                    self.count("decoy_modules")

    def env(self, site):
        """What the project needs in the environment of a run."""
        return {"PYTHONPATH": os.pathsep.join([*self.paths, site, RUNTIME])} if self.paths else {}

    @staticmethod
    def toml(s):
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

    def imports(self, m, helpers, packages):
        """Make some classes of some helpers usable as bases in module m."""
        r = self.rng
        for h in r.sample(helpers, min(len(helpers), r.choice([0, 1, 1, 2]))):
            # an absolute import works from the root, or from the directory that holds the importing module (or its package)
            absolute = h.base in ("", m.base) if not self.native else h.base == "" or h.base == m.base == m.dir
            relative = not self.native and m.base == h.base and "." in m.dotted and "." in h.dotted and \
                m.dotted.split(".")[0] == h.dotted.split(".")[0]
            # a package that is still being imported is no attribute of its parent yet
            whole = [] if m.helper and m.dotted.split(".")[0] == h.dotted.split(".")[0] else ["import"]
            forms = (["from", *whole, "importas", "fromas", "frommod"] if absolute else []) + (["rel", "relmod"] if relative else [])
            if absolute and getattr(h, "reexport", None):
                forms += ["reexport", "reexport"]
            if not forms:
                continue
            form = r.choice(forms)
            names = [n for n in h.own]
            hidden = [n for n in names if not self.test_class(n)]       # others would be collected here too
            if form in ("from", "fromas", "rel", "reexport"):
                names = hidden
            if form == "reexport":
                names = [n for n in hidden if n == h.reexport[1]]
            if not names:
                continue
            if form in ("rel", "relmod"):
                mine, theirs = m.dotted.split(".")[:-1], h.dotted.split(".")
                common = 0
                while common < len(mine) and common < len(theirs) - 1 and mine[common] == theirs[common]:
                    common += 1
                dots = "." * (len(mine) - common + 1)
                tail = theirs[common:]
            if form == "from":
                m.head.append(f"from {h.dotted} import " + (", ".join(names) if r.random() < 0.6 else "(\n    " + ",\n    ".join(names) + ",\n)"))
                new = {n: n for n in names}
            elif form == "reexport":
                m.head.append(f"from {h.reexport[0]} import {names[0]}")
                new = {names[0]: names[0]}
            elif form == "fromas":
                new = {f"Imp{self.name('')}" if not self.test_class("Imp1") else n: n for n in names}
                m.head.append(f"from {h.dotted} import " + ", ".join(f"{n} as {a}" for a, n in new.items()))
            elif form == "import":
                m.head.append(f"import {h.dotted}")
                new = {f"{h.dotted}.{n}": n for n in names}
            elif form == "importas":
                a = self.name("mod")
                m.head.append(f"import {h.dotted} as {a}")
                new = {f"{a}.{n}": n for n in names}
            elif form == "frommod":
                if "." not in h.dotted:
                    continue
                a = self.name("mod")
                p, _, q = h.dotted.rpartition(".")
                m.head.append(f"from {p} import {q}" + (f" as {a}" if r.random() < 0.5 else ""))
                new = {f"{a if m.head[-1].endswith(' as ' + a) else q}.{n}": n for n in names}
            elif form == "rel":
                m.head.append(f"from {dots}{'.'.join(tail)} import {', '.join(names)}")
                new = {n: n for n in names}
            else:
                m.head.append(f"from {dots}{'.'.join(tail[:-1])} import {tail[-1]}")
                new = {f"{tail[-1]}.{n}": n for n in names}
            for e, n in new.items():
                if e not in m.own:
                    m.classes[e + ("[int]" if n == "GenericBase" else "")] = h.own[n]
                    self.count("imported_bases")

    def test_module(self, d, dotted, name, helpers, packages):
        r = self.rng
        m = Module(self, os.path.join(d, name), False)
        m.name, m.dir, m.dotted = name[:-3], d, f"{dotted}.{name[:-3]}" if dotted else name[:-3]
        m.base = d if dotted is None else next(b for p, q, b in packages if p == d)
        self.imports(m, helpers, packages)
        defined = set()
        if self.deep and r.random() < 0.6:
            m.pool = self.deep
            self.hierarchy(m)
        taken = {e.split(".")[0].split("[")[0] for e in m.classes}
        for _ in range(r.choice([1, 2, 4, 7])):
            if r.random() < 0.5:
                n = r.choice(FUNCTIONS)
                if n not in taken:
                    m.body.append("\n".join(m.function(n)))
            else:
                n = r.choice(CLASSES)
                if n in m.own or n in taken or n in defined:
                    continue
                if not set(self.config) & {"python_classes", "python_functions"} and n.startswith("Test") and r.random() < 0.15:
                    m.testcase(n)
                    defined.add(n)
                    continue
                bases = m.pick_bases(lambda e: True)
                test_named = self.test_class(n)
                m.klass(n, bases, test_named)
            defined.add(n)
        if r.random() < 0.1 and not [c for c in m.own if c in defined and False]:
            n = r.choice([f for f in FUNCTIONS if f not in taken])
            m.body.append(f"{n} = None")
        self.files[m.rel] = m.text()
        self.tests.append((m.rel, dotted))

    def hierarchy(self, m):
        """Many classes that redefine and hide the same few methods of each other."""
        r = self.rng
        form = next((f for f in ["Test{}", "Check{}", "Spec{}", "{}Suite"] if self.test_class(f.format(1))), None)
        if form:
            for _ in range(r.choice([3, 5, 8])):
                m.klass(form.format(self.name("")) if form[0] != "{" else self.name("H") + "Suite", m.pick_bases(lambda e: True), True)
            self.count("hierarchies")

    def args(self):
        """Path arguments for one run."""
        r = self.rng
        if r.random() < 0.4:
            return []
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            rel = r.choice([t for t, _ in self.tests] + [d for d, _ in self.dirs])
            if self.unusual and r.random() < 0.3:
                rel = r.choice(self.unusual)
            if self.elsewhere and r.random() < 0.3:
                rel = r.choice(self.elsewhere)
                out.append(r.choice([rel, rel + "/", os.path.relpath(rel, self.root)] + [os.path.join(rel, n) for n in os.listdir(rel) if self.test_file(n)]))
                continue
            forms = [rel or ".", rel or "./", os.path.join(self.root, rel) if rel else self.root, "./" + rel]
            if rel and os.path.isdir(os.path.join(self.root, rel)):
                forms += [rel + "/"] + ([] if os.path.islink(os.path.join(self.root, rel)) else [os.path.join(rel, "..", os.path.basename(rel))])
            if rel:
                forms += [os.path.join("..", os.path.basename(self.root), rel)]
            out.append(r.choice(forms))
        return out


def base_of(node):
    f, sep, rest = node.partition("::")
    return f + sep + rest.split("[", 1)[0]
