"""Stand-in for a pytest process or a worker: records how it was started, then writes and ends as its plan says.

    python3 -I -S rtv_standin.py PLAN.json [anything...]

PLAN: {"log": file (appended, one JSON line per process), "endings": [...], "pick": "args" | index, "env": [names]}
Each ending: {"out": [[stream, hex], ...], "sleep": s, "code": n, "signal": n, "first_sleep": s}
"""
import hashlib
import json
import os
import sys
import time


def write_all(fd, data):
    while data:
        data = data[os.write(fd, data):]


def expand(chunk):
    """[stream, tag, size]: a deterministic text; [stream, "hex", bytes]: those bytes."""
    if chunk[1] == "hex":
        return bytes.fromhex(chunk[2])
    tag, size = chunk[1], chunk[2]
    out, i, n = [], 0, 0
    while n < size:
        line = f"{tag}:{i}:" + "x" * (i % 97) + ("\u00e9\u4e2d" if i % 13 == 0 else "") + "\n"
        b = line.encode()
        out.append(b)
        n += len(b)
        i += 1
    return b"".join(out)


def main():
    plan = json.load(open(sys.argv[1], encoding="utf-8"))
    argv = sys.argv[2:]
    pick = plan.get("pick", 0)
    if pick == "args":
        h = hashlib.sha1("\0".join(argv).encode("utf-8", "surrogateescape")).digest()
        pick = int.from_bytes(h[:4], "big") % len(plan["endings"])
    e = plan["endings"][pick]
    rec = {"argv": argv, "cwd": os.getcwd(), "pid": os.getpid(), "ending": pick,
           "env": {k: os.environ.get(k) for k in plan.get("env", [])}}
    fd = os.open(plan["log"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    os.write(fd, (json.dumps(rec) + "\n").encode())
    os.close(fd)
    time.sleep(e.get("first_sleep", 0))
    for chunk in e.get("out", []):
        write_all(1 if chunk[0] == "out" else 2, expand(chunk))
        if e.get("sleep"):
            time.sleep(e["sleep"])
    if e.get("signal"):
        import resource
        import signal
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if e["signal"] != signal.SIGKILL:
            signal.signal(e["signal"], signal.SIG_DFL)
        os.kill(os.getpid(), e["signal"])
        time.sleep(30)
    os._exit(e.get("code", 0))


if __name__ == "__main__":
    main()
