"""Test bodies with a known truthful outcome, and the module text that goes with them."""

HEAD = '''import asyncio, contextlib, dataclasses, functools, io, os, sys, threading, typing, warnings
import rtest
from rtv_log import ev

class MyAssert(AssertionError): pass
class MyError(Exception): pass
class MyBase(BaseException): pass
class BadStr(Exception):
    def __str__(self): raise RuntimeError("no text")
    __repr__ = __str__
class Slots(Exception):
    __slots__ = ()
class Odd(Exception):
    def __init__(self, a, *, b): self.a = a
class Later:
    def __await__(self): yield
    def close(self): raise RuntimeError("not a coroutine")
async def hidden(): pass
class NoContext(AssertionError):
    __suppress_context__ = property(lambda self: 1 / 0)
class Listed:
    def __dir__(self): return [1, 2]
def spoiled(name, value):
    e = SyntaxError("m", ("f.py", 1, 1, "x = 1"))
    setattr(e, name, value)
    return e
def chain(n):
    e = None
    for i in range(n):
        old, e = e, ValueError(i)
        e.__context__ = old
    return e
def nested(n):
    e = ValueError()
    for i in range(n): e = ExceptionGroup("g", [e])
    return e
def deep(): return deep()
def raiser(e): raise e
def _around(f):
    @functools.wraps(f)
    def wrapper(*a, **k): return f(*a, **k)
    return wrapper
'''

# name: (lines of the body, outcome, exception type or None)
BODIES = {
    "ok": (["pass"], "passed", None),
    "ok_value": (["return 5"], "passed", None),
    "ok_false": (["return False"], "passed", None),
    "ok_assert": (["assert [1, 2] == [1, 2]"], "passed", None),
    "ok_suppressed": (["with contextlib.suppress(ValueError):", "    raise ValueError"], "passed", None),
    "ok_caught_exit": (["try:", "    sys.exit(4)", "except SystemExit:", "    pass"], "passed", None),
    "ok_caught_assert": (["try:", "    assert False", "except AssertionError:", "    pass"], "passed", None),
    "ok_chdir": (["here = os.getcwd()", "os.chdir('/')", "os.chdir(here)"], "passed", None),
    "ok_prints": (["print('out ' * 500)", "print('err', file=sys.stderr)"], "passed", None),
    "ok_megabyte": (["sys.stdout.write('x' * 1_000_000)"], "passed", None),
    "ok_closes_out": (["sys.stdout.close()"], "passed", None),
    "ok_closes_err": (["sys.stderr.close()"], "passed", None),
    "ok_closes_both": (["sys.stdout.close(); sys.stderr.close()"], "passed", None),
    "ok_replaces_out": (["sys.stdout = io.StringIO()", "print('lost')"], "passed", None),
    "ok_out_none": (["sys.stdout = None", "sys.stderr = None"], "passed", None),
    "ok_out_bytes": (["sys.stdout = open(os.devnull, 'wb')"], "passed", None),
    "ok_surrogate_out": (["print('a\\udc80b\\ud800')", "print('\\udfff', file=sys.stderr)"], "passed", None),
    "ok_nul_out": (["print('\\x00\\x1b[0m\\x85\\u2028\\r')"], "passed", None),
    "ok_thread": (["t = threading.Thread(target=lambda: None)", "t.start()", "t.join()"], "passed", None),
    "ok_thread_exit": (["t = threading.Thread(target=sys.exit)", "t.start()", "t.join()"], "passed", None),
    "ok_warning": (["warnings.warn('careful')"], "passed", None),
    "ok_redirect": (["with contextlib.redirect_stdout(io.StringIO()):", "    print('inner')"], "passed", None),
    "ok_future": (["loop = asyncio.new_event_loop()", "loop.close()", "return loop.create_future()"], "passed", None),
    "ok_awaitable": (["return Later()"], "passed", None),
    "ok_iterator": (["return iter([1])"], "passed", None),
    "ok_async_name": (["return hidden"], "passed", None),
    "ok_asyncio_run": (["async def f(): return 1", "assert asyncio.run(f()) == 1"], "passed", None),
    "ok_own_module": (["assert sys.modules[__name__].__dict__ is globals()"], "passed", None),
    "ok_dataclass": (["@dataclasses.dataclass", "class Data:", "    x: 'MyError' = None", "    y: 'typing.ClassVar[int]' = 1",
                      "assert [f.name for f in dataclasses.fields(Data)] == ['x']", "assert typing.get_type_hints(Data)['x'] is MyError"], "passed", None),
    "ok_inspect": (["import inspect", "assert 'class MyBase' in inspect.getsource(MyBase)"], "passed", None),
    "assert_plain": (["assert False"], "failed", "AssertionError"),
    "assert_msg": (["assert 1 == 2, 'message with \\'quotes\\' and \\n newline'"], "failed", "AssertionError"),
    "assert_raised": (["raise AssertionError"], "failed", "AssertionError"),
    "assert_sub": (["raise MyAssert('sub')"], "failed", "MyAssert"),
    "assert_surrogate": (["assert False, 'x\\udc80y'"], "failed", "AssertionError"),
    "assert_from_error": (["try:", "    raise ValueError('inner')", "except ValueError as e:", "    raise AssertionError('outer') from e"], "failed", "AssertionError"),
    "assert_in_finally": (["try:", "    raise ValueError('lost')", "finally:", "    assert False"], "failed", "AssertionError"),
    "assert_closed_out": (["sys.stdout.close()", "assert False"], "failed", "AssertionError"),
    "assert_out_none": (["sys.stdout = None", "assert False"], "failed", "AssertionError"),
    "assert_raises_missing": (["with rtest.raises(ValueError):", "    pass"], "failed", "AssertionError"),
    "assert_huge": (["assert False, 'm' * 300_000"], "failed", "AssertionError"),
    "err_value": (["raise ValueError('x')"], "error", "ValueError"),
    "err_key": (["{}['missing']"], "error", "KeyError"),
    "err_name": (["undefined_name"], "error", "NameError"),
    "err_zero": (["1 / 0"], "error", "ZeroDivisionError"),
    "err_os": (["open('/no/such/file')"], "error", "FileNotFoundError"),
    "err_import": (["import no_such_module_rtv"], "error", "ModuleNotFoundError"),
    "err_custom": (["raise MyError"], "error", "MyError"),
    "err_badstr": (["raise BadStr()"], "error", "BadStr"),
    "err_slots": (["raise Slots"], "error", "Slots"),
    "err_odd_init": (["raise Odd(1, b=2)"], "error", "Odd"),
    "err_surrogate": (["raise ValueError('x\\ud800')"], "error", "ValueError"),
    "err_recursion": (["deep()"], "error", "RecursionError"),
    "err_memory": (["raise MemoryError"], "error", "MemoryError"),
    "err_stop": (["raise StopIteration"], "error", "StopIteration"),
    "err_next": (["next(iter([]))"], "error", "StopIteration"),
    "err_from_assert": (["try:", "    assert False", "except AssertionError as e:", "    raise ValueError from e"], "error", "ValueError"),
    "err_group": (["raise ExceptionGroup('g', [AssertionError('a'), ValueError('b')])"], "error", "ExceptionGroup"),
    "err_closed_out": (["sys.stdout.close()", "raise KeyError"], "error", "KeyError"),
    "err_not_exception": (["raise 5"], "error", "TypeError"),
    "err_arguments": (["(lambda a: a)()"], "error", "TypeError"),
    "err_syntax": (["raise spoiled('msg', 'simple')"], "error", "SyntaxError"),
    "err_syntax_text": (["raise spoiled('text', 5)"], "error", "SyntaxError"),
    "err_syntax_offset": (["raise spoiled('offset', 'x')"], "error", "SyntaxError"),
    "err_syntax_line": (["raise spoiled('lineno', [])"], "error", "SyntaxError"),
    "err_syntax_file": (["raise spoiled('filename', 7)"], "error", "SyntaxError"),
    "err_listed": (["Listed().foo"], "error", "AttributeError"),
    "assert_no_context": (["raise NoContext('x')"], "failed", "NoContext"),
    "err_chain": (["raise chain(3000)"], "error", "ValueError"),
    "err_nested": (["raise nested(300)"], "error", "ExceptionGroup"),
    "exit_0": (["sys.exit(0)"], "error", "SystemExit"),
    "exit_none": (["raise SystemExit"], "error", "SystemExit"),
    "exit_3": (["sys.exit(3)"], "error", "SystemExit"),
    "exit_text": (["sys.exit('bye')"], "error", "SystemExit"),
    "base_custom": (["raise MyBase('b')"], "error", "MyBase"),
    "base_generator": (["raise GeneratorExit"], "error", "GeneratorExit"),
    "base_cancelled": (["raise asyncio.CancelledError()"], "error", "CancelledError"),
    "base_group": (["raise BaseExceptionGroup('g', [MyBase()])"], "error", "BaseExceptionGroup"),
    "pytest_fail": (["import pytest", "pytest.fail('no')"], "error", "Failed"),
    "pytest_skip": (["import pytest", "pytest.skip('later')"], "error", "Skipped"),
    "pytest_exit": (["import pytest", "pytest.exit('now')"], "error", "Exit"),
    "unittest_fail": (["import unittest", "unittest.TestCase().fail('no')"], "failed", "AssertionError"),
    "unittest_skip": (["import unittest", "raise unittest.SkipTest('later')"], "error", "SkipTest"),
}
PASSING = [k for k, v in BODIES.items() if v[1] == "passed"]


def indent(lines, by="    "):
    return [by + x for x in lines]


def by_nodeid(results):
    out = {}
    for r in results:
        out.setdefault(r["nodeid"], []).append(r)
    return out
