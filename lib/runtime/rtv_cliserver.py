"""Serves complete runs of the rtest command line, and of pytest as an oracle, each in a forked child of its own.

One JSON request per line: {kind: rtest|api|pytest, argv, cwd, env, python, uid, out, err,
extra, timeout}. The child has `cwd`
as its directory, `env` on top of this process's environment, and its output in files. Answer: {"rc": status as a shell
gives it, "timeout": true if it had to be killed}.
"""
import json
import os
import select
import signal
import sys
import threading
import traceback

import pytest
import rtest.__main__ as cli


class Recorder:
    def __init__(self):
        self.nodes, self.errors, self.bad, self.warned = [], [], [], []

    def pytest_warning_recorded(self, warning_message):
        if "cannot collect test class" in str(warning_message.message):
            self.warned.append([str(warning_message.message), warning_message.filename, warning_message.lineno])

    def pytest_collectreport(self, report):
        if report.failed:
            self.errors.append([report.nodeid, str(report.longrepr)[-400:]])

    def pytest_runtest_logreport(self, report):
        if report.failed:
            self.bad.append([report.nodeid, report.when])

    def pytest_collection_finish(self, session):
        self.nodes = [item.nodeid for item in session.items]


def run_rtest(req):
    sys.executable = req.get("python") or sys.executable
    sys.argv = ["rtest", *req["argv"]]
    cli.main()
    return 0


def run_api(req):
    """The function the extension module offers: called with a list, with nothing, or with None."""
    from rtest._rtest import run_tests
    sys.executable = req.get("python") or sys.executable
    code = run_tests() if req["argv"] == ["()"] else run_tests(None) if req["argv"] == ["(None)"] else run_tests(req["argv"])
    return code if type(code) is int else 99


def run_apis(req):
    """Several calls in one process, with changes of the project and of the current directory between them."""
    from rtest._rtest import run_tests
    sys.executable = req.get("python") or sys.executable
    seen = []
    for step, *what in req["argv"]:
        if step == "chdir":
            os.chdir(what[0])
        elif step == "write":
            with open(what[0], "w") as f:
                f.write(what[1])
        elif step == "unlink":
            os.unlink(what[0])
        else:
            before = os.getcwd(), dict(os.environ), list(sys.path), sys.executable, set(sys.modules)
            answer = []
            if step == "thread":
                t = threading.Thread(target=lambda: answer.append(run_tests(what[0])))
                t.start()
                t.join()
            else:
                answer.append(run_tests(what[0]))
            after = os.getcwd(), dict(os.environ), list(sys.path), sys.executable, set(sys.modules)
            names = ["directory", "environment", "path", "executable", "modules"]
            seen.append([answer[0] if answer and type(answer[0]) is int else None, [n for n, a, b in zip(names, before, after) if a != b]])
    with open(req["extra"], "w") as f:
        json.dump(seen, f)
    return 0


def run_pytest(req):
    rec = Recorder()
    rc = pytest.main(["-p", "no:cacheprovider", "--rootdir=" + req["cwd"], *req["argv"]], plugins=[rec])
    with open(req["extra"], "w") as f:
        json.dump({"rc": int(rc), "nodes": rec.nodes, "errors": rec.errors, "bad": rec.bad, "warned": rec.warned}, f)
    return int(rc)


def child(req):
    os.setsid()
    for name, fd, flags in (("out", 1, os.O_WRONLY), ("err", 2, os.O_WRONLY)):
        f = os.open(req[name], flags | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(f, fd)
        os.close(f)
    os.chdir(req["cwd"])
    os.environ.update(req.get("env") or {})
    hidden = ["", os.path.dirname(os.path.abspath(__file__))]
    sys.path[:] = [p for p in sys.path if p not in hidden[:1 if "RTV_LOG" in os.environ else 2]]
    if req.get("uid"):
        os.setgroups([])
        os.setgid(req["uid"])
        os.setuid(req["uid"])
    if req["kind"] == "pytest":
        # as `python -m pytest` does
        sys.path[:0] = [req["cwd"], *[d for d in (req.get("env") or {}).get("PYTHONPATH", "").split(os.pathsep) if d and d not in sys.path]]
    return {"rtest": run_rtest, "api": run_api, "apis": run_apis, "pytest": run_pytest}[req["kind"]](req)


def main():
    null = os.open(os.devnull, os.O_RDONLY)
    requests = os.fdopen(os.dup(0), "r")
    answers = os.fdopen(os.dup(1), "w")
    os.dup2(null, 0)
    os.dup2(2, 1)
    for line in requests:
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                code = child(req)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 1 if e.code else 0
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        fd = os.pidfd_open(pid)
        late = not select.select([fd], [], [], req.get("timeout", 120))[0]
        os.close(fd)
        if late:
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                os.kill(pid, signal.SIGKILL)
        rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        try:
            os.killpg(pid, signal.SIGKILL)      # whatever it left running
            left = True
        except ProcessLookupError:
            left = False
        answers.write(json.dumps({"rc": rc, "timeout": late, "left": left}) + "\n")
        answers.flush()


main()
