"""Stand-in for `python -m rtest.worker ...`: records what it was told and delivers a scripted report.

$RTV_PLAN names {"log": file, "files": {path: {"results": [line, ...], "end": {...} | null}}}.
A worker's report is the results of its files in order; its ending is the first ending among its files, and without
one it ends as a real worker does (status 1 exactly if it reported a failure or error).
"""
import argparse
import json
import os
import sys
import time


def main():
    plan = json.load(open(os.environ["RTV_PLAN"], encoding="utf-8"))
    argv = sys.argv[1:]
    rest = argv[argv.index("rtest.worker") + 1:]
    p = argparse.ArgumentParser()
    p.add_argument("--root", required=True)
    p.add_argument("--out", required=True)
    p.add_argument("--python-classes", nargs="+", default=["Test*"])
    p.add_argument("--python-functions", nargs="+", default=["test*"])
    p.add_argument("files", nargs="+")
    a = p.parse_args(rest)
    lines, end, bad = [], None, False
    for f in a.files:
        item = plan["files"].get(os.path.abspath(os.path.join(a.root, f)), {"results": [], "end": None})
        for r in item["results"]:
            lines.append(r if isinstance(r, str) else json.dumps(r))
            if not isinstance(r, str) and r.get("outcome") in ("failed", "error"):
                bad = True
        end = end or item["end"]
    if end and end.get("once"):     # only the first worker that gets the file ends like this
        try:
            os.close(os.open(plan["log"] + "." + end["once"], os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            end = None
    rec = {"pid": os.getpid(), "cwd": os.getcwd(), "root": a.root, "out": a.out, "classes": a.python_classes,
           "functions": a.python_functions, "files": a.files, "end": end, "bad": bad, "lines": len(lines),
           "env": dict(os.environ)}
    fd = os.open(plan["log"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    os.write(fd, (json.dumps(rec) + "\n").encode())
    os.close(fd)
    e = end or {}
    time.sleep(e.get("sleep", 0))
    data = "".join(x + "\n" for x in lines).encode()
    how = e.get("report", "full")
    if how == "full":
        with open(a.out, "wb") as f:
            f.write(data)
    elif how == "cut":      # stops inside the last line
        with open(a.out, "wb") as f:
            f.write(data[:-2 - e.get("by", 1) % max(1, len(lines[-1]) - 2)] if lines else b"{")
    elif how == "bytes":
        with open(a.out, "wb") as f:
            f.write(data + bytes.fromhex(e["bytes"]))
    elif how == "dir":
        os.mkdir(a.out)
    elif how == "rmdir":
        os.rmdir(os.path.dirname(a.out)) if not os.listdir(os.path.dirname(a.out)) else None
    if e.get("noise"):
        for fd in (1, 2):
            d = b"noise of a worker \xff\n" * e["noise"]
            while d:
                d = d[os.write(fd, d):]
    if e.get("signal"):
        import resource
        import signal
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if e["signal"] != signal.SIGKILL:
            signal.signal(e["signal"], signal.SIG_DFL)
        os.kill(os.getpid(), e["signal"])
        time.sleep(30)
    os._exit(e.get("code", 1 if bad else 0))


if __name__ == "__main__":
    main()
