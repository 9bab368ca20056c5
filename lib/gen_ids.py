"""Generated test identifiers and lists of them."""
import itertools
from collections import Counter

MODES = ["load", "loadscope", "loadfile", "worksteal", "no"]
SMALL = ["a.py::test_1", "a.py::test_2", "a.py::T::test_1", "b.py::T::test_1", "a.py::U::test_1", "b.py::test_1[x::y]"]

CASES = ["", "", "", "[1]", "[a-b]", "[::1]", "[x::y::z]", "[a/b.py::c]", "[]", "[[q]]", "[ü-日本]", "[a b]", "[]::[]",
         "[\\n]", "[::]"]
NAMES = ["test_a", "test_b", "test", "test_é", "testX", "test_" + "long" * 20]
CLASSES = ["", "", "", "TestA", "TestB", "Test", "Testé"]


def files(rng, k):
    out = []
    for i in range(k):
        depth = rng.choice([0, 0, 1, 2, 5])
        parts = [rng.choice(["pkg", "sub", "a b", "ü", "x.y", "t[1]", "-d"]) + str(rng.randrange(3)) for _ in range(depth)]
        out.append("/".join(parts + [f"test_{rng.choice(['m', 'n', 'ü', '[p]', 'a-b'])}{i}.py"]))
        if rng.random() < 0.2:      # one that differs in little
            f = rng.choice(out)
            out.append(rng.choice([f.swapcase()[:-2] + "py", "./" + f, f + ":x.py", f.replace("/", ":"), " " + f, f + "c", f.replace("test_", "Test_")]))
    return out


def ident(rng, fs):
    f = rng.choice(fs)
    c = rng.choice(CLASSES)
    r = rng.random()
    if r < 0.02:
        return f
    n = rng.choice(NAMES) + (str(rng.randrange(50)) if rng.random() < 0.7 else "") + rng.choice(CASES)
    return f"{f}::{c}::{n}" if c else f"{f}::{n}"


def id_list(rng, size, dup=0.1, shape=None):
    fs = files(rng, rng.choice([1, 1, 2, 3, 7, 40, max(1, size // 2)]))
    out = []
    for _ in range(size):
        if out and rng.random() < dup:
            out.append(rng.choice(out))
        else:
            out.append(ident(rng, fs))
    shape = shape or rng.choice(["mixed", "sorted", "reversed", "blocks"])
    if shape == "sorted":
        out.sort()
    elif shape == "reversed":
        out.sort(reverse=True)
    elif shape == "blocks":
        out.sort(key=lambda s: s.split("::")[0])
    return out


def uniq(lst):
    seen, out = Counter(), []
    for x in lst:
        seen[x] += 1
        if seen[x] == 1:
            out.append(x)
    return out


def file_of(i):
    return i.split("::", 1)[0]


def scope_of(i):
    """(file, class or ''): the class is the first component after the file if another component follows, reading
    the case id (from the first '[' after the file) as part of the last component."""
    f, sep, rest = i.partition("::")
    if not sep:
        return (f, "")
    head = rest.split("[", 1)[0]
    parts = head.split("::")
    return (f, parts[0] if len(parts) > 1 else "")


def small_lists(maxlen):
    for k in range(0, maxlen + 1):
        yield from itertools.product(SMALL, repeat=k)


def workloads(ck):
    """(kind, tests, n) for the scheduler checks: small scope exhaustively, then random, large and extreme sizes."""
    rng = ck.rng
    for lst in small_lists(3 if ck.quick else 4):
        for n in (1, 2, 3, 4, 7) + ((2 ** 40, 2 ** 62) if len(lst) == 2 else ()):
            yield "small-scope", list(lst), n
    for n in range(1, 41):
        for size in {n - 1, n, n + 1, 2 * n, 2 * n + 1, 3 * n - 1}:
            if size >= 0:
                yield "sizes", id_list(rng, size, dup=0), n
    for _ in ck.rounds(ck.n(600, 6000), ck.n(1500, 60000)):
        size = rng.choice([rng.randrange(0, 12), rng.randrange(0, 80), rng.randrange(0, 400)])
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31, 32, 33, 64, 100, rng.randrange(1, 200), max(1, size), size + 1])
        yield "random", id_list(rng, size, dup=rng.choice([0, 0, 0.1, 0.5])), n
    for size in ck.n([1000, 1024, 4097], [1000, 1023, 1024, 1025, 4096, 4097, 10000, 65537]):
        for n in (1, 2, 7, 16, 255, 256, 257, 1000, size, size + 5):
            yield "large", id_list(rng, size, dup=rng.choice([0, 0.2])), n
    for n in (2, 3, 7, 100):
        yield "large", [f"t{k % 70001}.py::t" for k in range(ck.n(70003, 140009))], n
