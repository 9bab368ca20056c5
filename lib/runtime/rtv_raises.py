"""Drives rtest.raises over generated bodies and expectations; prints one JSON line per finding and a last one of counts.

    python rtv_raises.py SEED CASES
"""
import asyncio
import json
import random
import re
import sys

import rtest
from rtest.raises import raises as raises_fn


class A(Exception):
    pass


class B(A):
    pass


class C(B, ValueError):
    pass


class Base(BaseException):
    pass


class BaseSub(Base):
    pass


class OddStr(Exception):
    def __str__(self):
        return "odd:" + repr(self.args)


class Equal(Exception):
    def __eq__(self, other):
        return True
    __hash__ = None


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class MultiArg(Exception):
    def __init__(self, a, b=2):
        super().__init__(a, b)


TYPES = [Exception, BaseException, ValueError, KeyError, LookupError, IndexError, OSError, FileNotFoundError, AssertionError,
         TypeError, RuntimeError, RecursionError, NotImplementedError, ArithmeticError, ZeroDivisionError, UnicodeError,
         StopIteration, StopAsyncIteration, GeneratorExit, KeyboardInterrupt, SystemExit, asyncio.CancelledError,
         ExceptionGroup, BaseExceptionGroup, A, B, C, Base, BaseSub, OddStr, Equal, Falsy, MultiArg, Warning, UserWarning,
         SyntaxError, MemoryError, EOFError, UnicodeDecodeError]
MESSAGES = ["", "boom", "invalid value: 42", "line one\nline two", "é中", "a.b*c", "x" * 3000, "[brackets]", "Boom", "None",
            " boom ", "tab\t", "'quoted'", "\\d", "0"]
PATTERNS = [None, None, "", "boom", "^boom$", "BOOM", "(?i)BOOM", r"\d+", "one.*two", "(?s)one.*two", "^line two", "(?m)^line two$",
            "é", "a.b", r"a\.b\*c", "x{100}", r"\[", "value", "nothing like it", "$", "^$", "None", "b(oo)m", " boom", "\\\\d", "0"]
INVALID = ["(", "[", "*", "(?P<x", "a{2,1}", "\\", "(?<=a+)b", b"boom", 12, ["x"], object()]
BAD_EXPECTED = [int, object, "ValueError", None, ValueError("x"), (), (ValueError, int), (ValueError, "x"), [ValueError], ((ValueError,),),
                (None,), (*[ValueError] * 12, 3), (*[A, B, C] * 7, "x", A), 3, lambda: 0, (ValueError(),)]


def make(rng, t):
    m = rng.choice(MESSAGES)
    if issubclass(t, BaseExceptionGroup):
        return t(m or "g", [ValueError(m)])
    if t is UnicodeDecodeError:
        return t("utf-8", b"\xff", 0, 1, m)
    if t is MultiArg:
        return t(m)
    if rng.random() < 0.1:
        e = t(m)
        e.add_note(rng.choice(["boom", "a note", "invalid value: 42"]))
        return e
    return t(m) if rng.random() < 0.8 or t is SyntaxError else t() if rng.random() < 0.5 else t(m, 7)


def body_raise(e, how):
    if how == "plain":
        raise e
    if how == "from":
        raise e from LookupError("cause")
    if how == "context":
        try:
            raise KeyError("first")
        except KeyError:
            raise e
    if how == "deep":
        def f(k):
            if k:
                return f(k - 1)
            raise e
        f(50)
    if how == "finally":
        try:
            raise e
        finally:
            len("x")
    raise AssertionError("unreachable")


def subjects():
    return [rtest.raises, raises_fn]


def main():
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    rng = random.Random(seed)
    counts, bad, keys = {}, [], set()

    def count(k):
        counts[k] = counts.get(k, 0) + 1

    def note(what, **case):
        bad.append({"what": what, "case": {k: repr(v)[:300] for k, v in case.items()}})

    def sample_expected():
        if rng.random() < 0.6:
            return rng.choice(TYPES)
        return tuple(rng.choice(TYPES) for _ in range(rng.choice([1, 2, 3, 5])))

    for i in range(n):
        raises = rng.choice(subjects())
        c = rng.random()
        if c < 0.08:    # rejected expectations and patterns, before the body runs
            ran = []
            exp, pat = (rng.choice(BAD_EXPECTED), None) if rng.random() < 0.5 else (ValueError, rng.choice(INVALID))
            try:
                with raises(exp, match=pat):
                    ran.append(1)
                    raise ValueError("boom")
            except BaseException as e:
                refused = not ran and isinstance(e, (TypeError, ValueError)) and str(e) != "boom"
            else:
                refused = False
            count("rejected_setups")
            keys.add(("reject", repr(exp)[:60], repr(pat)[:40]))
            if not refused:
                note("an invalid expectation or pattern was not rejected at set-up", expected=exp, pattern=pat, body_ran=bool(ran))
            continue
        expected = sample_expected()
        pat = rng.choice(PATTERNS) if rng.random() < 0.5 else None
        if pat is not None and rng.random() < 0.3:
            pat = re.compile(pat, rng.choice([0, re.I, re.S, re.M]))
        t = rng.choice(TYPES)
        if rng.random() < 0.5:      # make acceptance likely
            t = rng.choice(expected) if isinstance(expected, tuple) else expected
            subs = [x for x in TYPES if issubclass(x, t)]
            t = rng.choice(subs)
        nothing = rng.random() < 0.12
        how = rng.choice(["plain", "plain", "from", "context", "deep", "finally"])
        e = None if nothing else make(rng, t)
        try:
            ctx = raises(expected, match=pat)
        except BaseException as x:
            note(f"a valid expectation is rejected: {x!r}"[:300], expected=expected, pattern=pat)
            continue
        reused = rng.random() < 0.15
        if reused:
            first = make(rng, expected[0] if isinstance(expected, tuple) else expected)
            try:
                with ctx:
                    raise first
            except BaseException:
                pass
        caught, entered = None, None
        try:
            with ctx as entered:
                if not nothing:
                    body_raise(e, how)
            end = "passed"
        except BaseException as x:
            caught, end = x, "raised"
        types = expected if isinstance(expected, tuple) else (expected,)
        text = None if nothing else str(e)
        fits = not nothing and isinstance(e, types)
        matches = fits and (pat is None or re.search(pat, text) is not None)
        want = "accept" if matches else "assert" if nothing or fits else "propagate"
        count(want)
        keys.add((want, repr(expected)[:120], t.__name__, str(pat)[:40], how, nothing))
        if want == "accept":
            if end != "passed":
                note(f"accepted exception was not swallowed: {caught!r}"[:300], expected=expected, exc=e, pattern=pat, how=how)
            elif ctx.value is not e or entered is None or entered.value is not e:
                note("the context's value is not the caught exception", expected=expected, exc=e, value=ctx.value, reused=reused)
        elif want == "assert":
            if end != "raised" or not isinstance(caught, AssertionError) or caught is e:
                note(f"no assertion error ({'nothing was raised' if nothing else 'the text does not match'}): {end} {caught!r}"[:400],
                     expected=expected, exc=e, pattern=pat, text=text)
        else:
            if caught is not e:
                note(f"another exception did not propagate unchanged: {end} {caught!r}"[:300], expected=expected, exc=e, pattern=pat, how=how)
            elif (how == "from") != isinstance(e.__cause__, LookupError) or (how == "context") != isinstance(e.__context__, KeyError) and how != "from":
                note("the propagated exception lost or gained a cause", expected=expected, exc=e, how=how)
        if rng.random() < 0.05:     # nesting: the outer block sees what the inner one lets through
            inner, outer = raises(KeyError), raises(A)
            x = B("nested")
            try:
                with outer:
                    with inner:
                        raise x
            except BaseException as y:
                note(f"nested blocks: {y!r} escaped", exc=x)
            if outer.value is not x:
                note("nested blocks: the outer one did not catch what the inner one let through", exc=x)
            count("nested")
    for b in bad[:10]:
        print(json.dumps(b))
    print(json.dumps({"counts": counts, "cases": n, "distinct": len(keys), "violations": len(bad),
                      "samples": [repr(k) for k in sorted(keys, key=repr)[:: max(1, len(keys) // 5)]]}))


main()
