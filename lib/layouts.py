"""Small hand-written projects of the subset that static collection supports, for C23 and C26: forms of inheritance and
layouts that random projects seldom combine. LAYOUTS: {name: (files, arguments)}; a value of the form ("->", target) is a link."""

BASE = "class {0}:\n    def test_{1}(self): pass\n"
INIT = "class {0}:\n    def __init__(self): pass\n    def test_{1}(self): pass\n"
OWN = "    def test_own(self): pass\n"


def chain(n, first, last="TestA"):
    """n modules m1, m2, ..., each with a class that inherits from that of the one before, and a test file with one more."""
    files = {"m1.py": first}
    for k in range(2, n + 1):
        files[f"m{k}.py"] = f"from m{k - 1} import C{k - 1}\nclass C{k}(C{k - 1}):\n    def test_{k}(self): pass\n"
    files["test_a.py"] = f"from m{n} import C{n}\nclass {last}(C{n}):\n    def test_own(self): pass\n"
    return files


def passed_on(n, first):
    """A class that n modules pass on, under a new name each."""
    files = {"m0.py": first}
    for k in range(1, n + 1):
        files[f"m{k}.py"] = f"from m{k - 1} import C{k - 1} as C{k}\n"
    files["test_a.py"] = f"from m{n} import C{n} as Shared\nclass TestA(Shared):\n    def test_own(self): pass\n"
    return files


LAYOUTS = {
    # relative imports in packages
    "init-relative": {"pkg/__init__.py": "from .base import Base\n", "pkg/base.py": BASE.format("Base", "b"),
                      "test_a.py": "from pkg import Base\nclass TestA(Base):\n" + OWN},
    "init-relative-as": {"pkg/__init__.py": "from .base import Base as Shared\n", "pkg/base.py": BASE.format("Base", "b"),
                         "tests/test_a.py": "from pkg import Shared\nclass TestA(Shared):\n" + OWN},
    "init-relative-module": {"pkg/__init__.py": "from . import base\n", "pkg/base.py": BASE.format("Base", "b"),
                             "test_a.py": "import pkg\nclass TestA(pkg.base.Base):\n" + OWN},
    "init-relative-inherits": {"pkg/__init__.py": "from .core import Core\nclass Base(Core):\n    def test_i(self): pass\n", "pkg/core.py": BASE.format("Core", "c"),
                               "test_a.py": "from pkg import Base\nclass TestA(Base):\n" + OWN},
    "init-relative-deep": {"pkg/__init__.py": "from .sub.deep import Base\n", "pkg/sub/__init__.py": "", "pkg/sub/deep.py": "from ..low import Low\nclass Base(Low):\n    def test_d(self): pass\n",
                           "pkg/low.py": BASE.format("Low", "l"), "test_a.py": "from pkg import Base\nclass TestA(Base):\n" + OWN},
    "init-relative-up": {"pkg/__init__.py": "", "pkg/base.py": BASE.format("Base", "b"), "pkg/sub/__init__.py": "from ..base import Base\nfrom .. import base as again\n",
                         "test_a.py": "from pkg.sub import Base\nimport pkg.sub\nclass TestA(Base):\n    pass\nclass TestB(pkg.sub.again.Base):\n" + OWN},
    "init-relative-init": {"pkg/__init__.py": "from .base import Base\n", "pkg/base.py": INIT.format("Base", "b"),
                           "test_a.py": "from pkg import Base\nclass TestA(Base):\n" + OWN + "def test_f(): pass\n"},
    "init-own": {"pkg/__init__.py": BASE.format("Base", "b"), "pkg/test_a.py": "from . import Base\nclass TestA(Base):\n" + OWN,
                 "pkg/sub/__init__.py": "", "pkg/sub/test_b.py": "from .. import Base\nclass TestB(Base):\n" + OWN},
    "relative-three": {"pkg/__init__.py": "", "pkg/a/__init__.py": "", "pkg/a/b/__init__.py": "", "pkg/low.py": BASE.format("Low", "l"), "pkg/a/mid.py": BASE.format("Mid", "m"),
                       "pkg/a/b/near.py": BASE.format("Near", "n"), "pkg/other/__init__.py": "", "pkg/other/far.py": BASE.format("Far", "f"),
                       "pkg/a/b/test_a.py": "from .near import Near\nfrom ..mid import Mid\nfrom ...low import Low\nfrom ...other.far import Far\nfrom ... import low as lo\n"
                       "class TestN(Near): pass\nclass TestM(Mid): pass\nclass TestL(Low): pass\nclass TestF(Far): pass\nclass TestO(lo.Low, Far): pass\n"},
    "relative-decoy": {"pkg/__init__.py": "", "pkg/base.py": BASE.format("Base", "right"), "base.py": BASE.format("Base", "wrong"),
                       "pkg/test_a.py": "from .base import Base\nclass TestA(Base):\n" + OWN, "test_b.py": "from base import Base\nclass TestB(Base):\n" + OWN},
    "root_package": {"__init__.py": "", "base.py": BASE.format("Base", "b"), "test_a.py": "from .base import Base\nclass TestA(Base):\n" + OWN,
                     "sub/__init__.py": "", "sub/test_b.py": "from ..base import Base\nfrom .. import base as lower\nclass TestB(Base):\n" + OWN + "class TestC(lower.Base): pass\n",
                     "sub/test_d.py": "from root_package.base import Base\nimport root_package.base as b\nclass TestD(Base):\n" + OWN + "class TestE(b.Base): pass\n"},
    # dotted names
    "dotted-deep": {"a/__init__.py": "", "a/b/__init__.py": "", "a/b/c.py": BASE.format("Base", "c") + "class Other(Base):\n    def test_o(self): pass\n",
                    "test_a.py": "import a.b.c\nimport a.b.c as abc_\nimport a as top\nimport a.b as ab\nfrom a import b\nfrom a.b import c\nfrom a import b as bb\n"
                    "class TestA(a.b.c.Base): pass\nclass TestB(abc_.Other): pass\nclass TestC(top.b.c.Base): pass\nclass TestD(ab.c.Other): pass\n"
                    "class TestE(b.c.Base): pass\nclass TestF(c.Other): pass\nclass TestG(bb.c.Other): pass\n"},
    "dotted-two": {"a/__init__.py": "", "a/one.py": BASE.format("Base", "one"), "a/two.py": BASE.format("Base", "two"), "b.py": "from a import one, two as second\nimport a.one as first\n",
                   "test_a.py": "import a.one, a.two\nimport b\nclass TestA(a.one.Base): pass\nclass TestB(a.two.Base): pass\nclass TestC(a.two.Base, a.one.Base): pass\nclass TestD(b.second.Base): pass\nclass TestE(b.first.Base): pass\n"},
    "namespaces": {"n/o/p/base.py": BASE.format("Base", "b"), "n/o/near.py": BASE.format("Near", "n"),
                   "test_a.py": "from n.o.p.base import Base\nfrom n.o import near\nimport n.o.p.base\nclass TestA(Base): pass\nclass TestB(near.Near): pass\nclass TestC(n.o.p.base.Base): pass\n"},
    "subscripts": {"pkg/__init__.py": "", "pkg/gen.py": "from typing import Generic, TypeVar\nT = TypeVar('T')\nU = TypeVar('U')\nclass One(Generic[T]):\n    def test_one(self): pass\n"
                   "class Two(Generic[T, U]):\n    def test_two(self): pass\n",
                   "test_a.py": "import pkg.gen\nimport pkg.gen as g\nfrom pkg import gen\nfrom pkg.gen import One\nclass TestA(One[int]): pass\nclass TestB(g.One[list[int]]): pass\n"
                   "class TestC(gen.Two[int, str]): pass\nclass TestD(pkg.gen.Two['x', None]): pass\nclass TestE(pkg.gen.One[int], g.Two[int, int]): pass\n"},
    # names
    "import-twice": {"a.py": BASE.format("Base", "a"), "b.py": BASE.format("Base", "b"), "c.py": INIT.format("Base", "c"),
                     "test_a.py": "from a import Base\nfrom b import Base\nclass TestA(Base): pass\n", "test_b.py": "from c import Base\nfrom a import Base\nclass TestB(Base): pass\n",
                     "test_c.py": "import a as m\nimport b as m\nclass TestC(m.Base): pass\n"},
    "same-names": {"a.py": BASE.format("TestX", "a"), "b.py": "from a import TestX as Up\nclass TestX(Up):\n    def test_b(self): pass\n", "c.py": BASE.format("TestX", "c"),
                   "test_a.py": "import a, b, c\nclass TestX(b.TestX):\n    def test_x(self): pass\nclass TestY(a.TestX, c.TestX): pass\nclass TestZ(c.TestX, b.TestX): pass\n"},
    "same-offsets": {"base.py": "import base as b\nclass TestX( object):\n    def test_m(self): pass\n    def test_n(self): pass\n",
                     "test_a.py": "import base as b\nclass TestX(b.TestX):\n    def test_m(self): pass\n    def test_o(self): pass\n"},
    "private-bases": {"base.py": "class _Low:\n    def test_low(self): pass\nclass __Mid(_Low):\n    def test_mid(self): pass\nclass low_case(__Mid):\n    def test_lc(self): pass\n",
                      "test_a.py": "from base import _Low\nimport base\nclass TestA(_Low): pass\nclass TestB(base.low_case):\n" + OWN},
    "passed-on": passed_on(7, BASE.format("C0", "far")),
    "passed-on-init": passed_on(7, INIT.format("C0", "far")),
    "passed-on-turn": {"a.py": "from b import Two\nfrom b import One as Third\n", "b.py": "from c import One\nfrom c import One as Two\n", "c.py": BASE.format("One", "c"),
                       "test_a.py": "from a import Two, Third\nimport a\nclass TestA(Two): pass\nclass TestB(Third): pass\nclass TestC(a.Third): pass\n"},
    # long chains
    "long-chain": chain(9, BASE.format("C1", "first")),
    "long-chain-init": chain(9, INIT.format("C1", "first")),
    "long-chain-cases": chain(6, "import pytest\n@pytest.mark.parametrize('x', [1, 2])\nclass C1:\n    def test_first(self, x): pass\n"
                              "    @pytest.mark.parametrize('y', 'a b'.split())\n    def test_open(self, x, y): pass\n".replace("'a b'.split()", "['a', 'b']")).copy(),
    # constructors
    "init-second": {"base.py": INIT.format("WithInit", "w") + BASE.format("Plain", "p"),
                    "test_a.py": "import abc\nimport enum\nfrom base import WithInit, Plain\ndef make(): return type('Made', (), {})\nclass TestA(abc.ABC, WithInit):\n" + OWN
                    + "class TestB(make(), WithInit):\n" + OWN + "class TestC(Plain, WithInit):\n" + OWN + "class TestD(abc.ABC, Plain):\n" + OWN + "class TestE(make(), Plain):\n" + OWN
                    + "class TestF(WithInit, abc.ABC):\n" + OWN},
    "init-forms": {"base.py": "import typing\ndef same(f): return f\nclass A:\n    @same\n    def __init__(self): pass\nclass B:\n    x: int = 3\n    def test_b(self): pass\n    @same\n    @same\n    def __init__(self, *a, **k):\n        super().__init__()\n",
                   "test_a.py": "from base import A, B\ndef same(f): return f\nclass TestA(A):\n" + OWN + "class TestB(B):\n" + OWN
                   + "class TestC:\n    def test_c(self): pass\n    @same\n    def __init__(self): pass\nclass TestD:\n    def __init_subclass__(cls): pass\n" + OWN
                   + "class TestE:\n    def init(self): pass\n    def __init__x(self): pass\n" + OWN},
    "init-diamond": {"base.py": INIT.format("Top", "t") + "class Left(Top):\n    def test_l(self): pass\nclass Right:\n    def test_r(self): pass\nclass Both(Right, Left):\n    def test_b(self): pass\n",
                     "test_a.py": "from base import Both, Right\nclass TestA(Right): pass\nclass TestB(Both): pass\nclass TestC(Right):\n    def test_r(self): pass\n"},
    "init-lines": {"test_a.py": "# é 日本 😀 " + "x" * 300 + "\n" * 350 + "TEXT = '''\n" + "é\n" * 90 + "'''\ndef same(c): return c\n@same\n@same\nclass TestA:\n    def __init__(self): pass\n" + OWN
                   + "\n\n\nclass TestB:\n    '''é'''\n" + OWN + "    def __init__(self): pass\nclass TestC(TestB):\n    pass\n"},
    "init-lines-crlf": {"test_a.py": ("# é\n" * 40 + "def same(c): return c\n@same\nclass TestA:\n    def __init__(self): pass\n" + OWN + "x = '''\n\n'''\nclass TestB(TestA): pass\n").replace("\n", "\r\n")},
    "init-value": {"base.py": "class Base:\n    __init__ = object.__init__\n    def test_b(self): pass\n", "test_a.py": "def test_f(): pass\n"},
    # order of resolution
    "diamond-override": {"base.py": "class A:\n    def test_x(self): pass\n    def test_y(self): pass\nclass B(A):\n    test_x = None\nclass C(A):\n    def test_x(self): pass\n    test_y = None\n",
                         "test_a.py": "from base import A, B, C\nclass TestA(B, C): pass\nclass TestB(C, B): pass\nclass TestC(B): pass\nclass TestD(C):\n    def test_y(self): pass\n"
                         "class TestE(B, C):\n    test_y = None\n    def test_x(self): pass\nclass TestF(TestD): pass\nclass TestG(B, TestD): pass\n"},
    "hidden-again": {"test_a.py": "class TestA:\n    def test_x(self): pass\n    def test_y(self): pass\nclass TestB(TestA):\n    test_x = None\nclass TestC(TestB):\n    def test_x(self): pass\nclass TestD(TestC):\n    test_x = 'no'\n"
                     "    test_y: object = None\nclass TestE(TestD):\n    def test_y(self): pass\nclass TestF(TestE, TestC): pass\nclass TestG:\n    test_a = None\n    def test_a(self): pass\n    def test_b(self): pass\n    test_b = 3\n"
                     "class TestH(TestG):\n    def test_b(self): pass\n    test_a = True\n"},
    "cases-inherited": {"base.py": "import pytest\n@pytest.mark.parametrize('a', [1, 2])\nclass A:\n    def test_x(self, a): pass\n@pytest.mark.parametrize('b', ['p', 'q'])\nclass B(A):\n    def test_x(self, a, b): pass\n"
                        "    @pytest.mark.parametrize('d', [True])\n    def test_y(self, a, b, d): pass\n",
                        "test_a.py": "import pytest\nfrom base import A, B\nclass TestA(A): pass\n@pytest.mark.parametrize('c', [0.5, None])\nclass TestB(B):\n    def test_x(self, a, b, c): pass\n    def test_y(self, a, b, c): pass\n"
                        "@pytest.mark.parametrize('e', ['e1', 'e2'])\nclass TestC(TestB):\n    def test_x(self, a, b, c, e): pass\n    def test_y(self, a, b, c, e): pass\n"},
    # files
    "file-names": {"test_a.py": "def test_a(): pass\n", "test_b.PY": "def test_b(): pass\n", "test_c.pyi": "def test_c(): pass\n", "test_d.py~": "def test_d(): pass\n", "test_e.py.txt": "def test_e(): pass\n",
                   "test_.py": "def test_f(): pass\n", "_test.py": "def test_g(): pass\n", "test.py": "def test_h(): pass\n", "Test_i.py": "def test_i(): pass\n", "test_j_test.py": "def test_j(): pass\n",
                   "tests.py": "def test_k(): pass\n", "a_tests.py": "def test_l(): pass\n", "test-m.py": "def test_m(): pass\n", "testpy": "def test_n(): pass\n", "sub/test_py": "def test_o(): pass\n", "test_dir.py/test_p.py": "def test_p(): pass\n",
                   "test_q.pyc": "", "xtest_r.py": "def test_r(): pass\n", "x_test_s.py": "def test_s(): pass\n"},
    "linked-files": {"test_a.py": "from base import Base\nclass TestA(Base):\n" + OWN, "base.py": ("->", "store/other"), "store/other": BASE.format("Base", "b"),
                     "linked": ("->", "store/pkg"), "store/pkg/__init__.py": "", "store/pkg/mod.py": BASE.format("Mod", "m"), "test_b.py": "from linked.mod import Mod\nclass TestB(Mod):\n" + OWN,
                     "test_c.py": ("->", "store/source.py"), "store/source.py": "from base import Base\nclass TestC(Base):\n" + OWN, "test_gone.py": ("->", "store/nothing.py")},
    "rootlike": {"tests/test_a.py": "from tests.helpers import Base\nclass TestA(Base):\n" + OWN, "tests/helpers.py": BASE.format("Base", "h"), "tests/unit/test_b.py": "from tests.helpers import Base\nimport tests.helpers as h\nclass TestB(Base): pass\nclass TestC(h.Base):\n" + OWN},
    "beside": {"x/test_a.py": "from helpers import Base\nclass TestA(Base):\n" + OWN, "x/helpers.py": BASE.format("Base", "x"), "y/test_b.py": "from others import Base\nclass TestB(Base):\n" + OWN, "y/others.py": BASE.format("Base", "y"), "helpers.py": BASE.format("Base", "root")},
}


# the modules of a long chain of cases also take what the class decorator gives
LAYOUTS["long-chain-cases"] = {f: t.replace("(self): pass", "(self, x): pass") for f, t in LAYOUTS["long-chain-cases"].items()}


# cases
MANY = "".join(f"@pytest.mark.parametrize('{a}', [{i}, {i + 10}])\n{x}" for i, (a, x) in enumerate([
    ("a", "@pytest.mark.slow\n"), ("b", "@pytest.mark.xfail(reason='cases')\n@same\n"), ("c", ""), ("d", "@pytest.mark.filterwarnings('ignore')\n"), ("e", "@same\n")]))
LAYOUTS["between"] = {"test_a.py": "import pytest\ndef same(f): return f\n" + MANY + "def test_a(a, b, c, d, e): pass\n" + MANY + "class TestA:\n    def test_m(self, a, b, c, d, e): pass\n"}
LAYOUTS["unknown-in-chain"] = {
    "base.py": "import pytest\nclass Low:\n    def test_x(self, a): pass\n@pytest.mark.parametrize('a', [i for i in range(2)])\nclass Mid(Low): pass\nclass High(Mid): pass\n",
    "test_a.py": "import pytest\nfrom base import Low, Mid, High\nclass TestA(Mid): pass\nclass TestB(High): pass\n@pytest.mark.parametrize('a', [1, 2])\nclass TestC(Low): pass\n"
    "@pytest.mark.parametrize('b', [3, 4])\nclass TestD(High):\n    def test_x(self, a, b): pass\n"}
RTEST_MARKS = "".join(f"@rtest.mark.cases('{a}', [{i}, {i + 10}])\n{x}" for i, (a, x) in enumerate([("a", "@rtest.mark.skip\n" * 0), ("b", "@pytest.mark.slow\n@same\n"), ("c", "")]))
LAYOUTS["rtest-marks"] = {"test_a.py": "import rtest.mark\nimport pytest\ndef same(f): return f\n" + RTEST_MARKS + "def test_a(a, b, c): pass\n",
                          "test_b.py": "import os.path, rtest.mark, rtest\nimport pytest, xml.etree\n@rtest.mark.cases('x', [(1, 2), [3]])\ndef test_b(x): pass\n@rtest.mark.cases(['x'], [(1, 2), [3], 4])\ndef test_c(x): pass\n"
                          "@pytest.mark.parametrize(['x'], [(1,), [3]])\ndef test_d(x): pass\n"}
LAYOUTS["both-marks"] = {"test_a.py": "import rtest, pytest\n@pytest.mark.parametrize('a, b', [(1, 2), (3, 4)])\n@rtest.mark.cases('a', [5, 6])\n@rtest.mark.cases('b', [7])\ndef test_a(a, b): pass\n"
                         "@pytest.mark.parametrize('a', [1, 2])\n@rtest.mark.cases('b', [7, 8])\ndef test_b(a, b): pass\n"
                         "@pytest.mark.parametrize('a, c', [(1, 2), (3, 4)])\n@rtest.mark.cases('a', [5, 6])\ndef test_c(a, c=0): pass\n"
                         "@rtest.mark.cases('a', [5, 6])\n@pytest.mark.parametrize('c, a', [(1, 2), (3, 4)])\n@pytest.mark.parametrize('d', [(), 4])\ndef test_d(a, d, c=0): pass\n"}
LAYOUTS["repeated-ids"] = {"test_a.py": "import rtest\n@rtest.mark.cases('a', ['x', 'x', 'x_1', 'x', 'x_1', 'x_2_1', 'x_2'])\ndef test_a(a): pass\n@rtest.mark.cases('a', ['x', 'x', 'x_1', 'x_1'], ids=['x_1', 'x', 'x', 'x_1_1'])\ndef test_b(a): pass\n"
                           "@rtest.mark.cases('a', ['p-q', 'p'])\n@rtest.mark.cases('b', ['r', 'q-r'])\ndef test_c(a, b): pass\n"}

LAYOUTS["same-lines-cases"] = {f: f"import pytest, base as b\nclass TestX({b}):\n    @pytest.mark.parametrize('x', [{v}, {v + 1}])\n    def test_m(self, x): pass\n    @pytest.mark.parametrize('y', ['{v}'])\n    def test_n(self, y): pass\n"
                               for f, b, v in [("base.py", "  object", 1), ("test_a.py", " b.TestX", 5)]}
LAYOUTS["named-pytest"] = {"pkg/__init__.py": "", "pkg/pytest.py": "class mark:\n    @staticmethod\n    def parametrize(*args): return lambda f: f\n",
                           "pkg/test_a.py": "from .pytest import mark\nfrom . import pytest as own\nimport pytest\n@mark.parametrize('x', [1, 2])\ndef test_a(x=0): pass\n"
                           "@own.mark.parametrize('x', [1, 2])\ndef test_b(x=0): pass\n@pytest.mark.parametrize('x', [1, 2])\ndef test_c(x): pass\n"}

# opted out, and back in
LAYOUTS["opted-out-back-in"] = {"base.py": "class Shared:\n    __test__ = False\n    def test_s(self): pass\n\nclass Again(Shared):\n    __test__ = True\n    def test_g(self): pass\n",
                                "test_a.py": "import base\nclass TestOut(base.Shared):\n" + OWN + "class TestIn(base.Shared):\n    __test__ = True\n" + OWN + "class TestOn(base.Again):\n" + OWN
                                + "class TestOff(TestIn):\n    __test__ = False\nclass TestBoth(base.Again, base.Shared):\n    pass\n"}
LAYOUTS["opted-out-order"] = {"test_a.py": "class TestOff:\n    __test__ = False\n    def test_x(self): pass\nclass TestOn:\n    __test__ = True\n    def test_y(self): pass\n"
                              "class TestFirst(TestOff, TestOn):\n    pass\nclass TestSecond(TestOn, TestOff):\n    pass\nclass TestThird(TestOff):\n    def __init__(self): pass\n"}
LAYOUTS["opted-out-module"] = {"base.py": "__test__ = False\n" + BASE.format("Base", "b"), "test_a.py": "from base import Base\nclass TestA(Base):\n" + OWN,
                               "test_b.py": "from base import Base\n__test__ = False\nclass TestB(Base):\n" + OWN + "def test_f(): pass\n", "test_c.py": "__test__ = True\ndef test_c(): pass\n",
                               "test_d.py": "def test_d(): pass\nclass TestD:\n    class Inner:\n        __test__ = False\n    def test_e(self):\n        __test__ = False\n"}

RELATIVE = {n for n, files in LAYOUTS.items() if any(isinstance(t, str) and "from ." in t for t in files.values())}


def native(name):
    """Whether the native worker, which knows no relative imports, can run it."""
    return name not in RELATIVE


def native_only(name):
    return any(isinstance(t, str) and "rtest" in t for t in LAYOUTS[name].values())


def write(files, root):
    import os
    from vlib import write_file
    os.makedirs(root, exist_ok=True)
    for rel, text in files.items():
        path = os.path.join(root, rel)
        if isinstance(text, tuple):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            os.symlink(os.path.join(root, text[1]), path)
        else:
            write_file(path, text)
