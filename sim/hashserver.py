"""Interpreters with other hash seeds that execute the same simulated run."""

import os
import pickle
import struct
import subprocess
import sys

POOL = [1, 2, 3]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_servers = {}


def start(seeds=POOL):
    for h in seeds:
        if h not in _servers:
            env = dict(os.environ, SIM_BOOTED="1", PYTHONHASHSEED=str(h))
            _servers[h] = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "run.py"), "--hash-server"],
                                           stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd="/")


def stop():
    for p in _servers.values():
        p.stdin.close()
        p.wait()
    _servers.clear()


def _send(f, o):
    d = pickle.dumps(o)
    f.write(struct.pack("<I", len(d)) + d)
    f.flush()


def _recv(f):
    h = f.read(4)
    if len(h) < 4:
        return None
    n = struct.unpack("<I", h)[0]
    d = b""
    while len(d) < n:
        c = f.read(n - len(d))
        if not c:
            return None
        d += c
    return pickle.loads(d)


def request(h, req):
    from . import kernel

    own = h not in _servers
    if own:
        start([h])
    p = _servers[h]
    _send(p.stdin, req)
    r = _recv(p.stdout)
    if own:
        _servers.pop(h)
        p.stdin.close()
        p.wait()
    if r is None or "error" in r:
        raise kernel.HarnessError(f"hash server {h}: {r}")
    return r


def serve():
    """Main loop of a server process; each request runs in a fork."""
    from .worlds import lint

    lint.warm("C15")
    fin, fout = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        req = _recv(fin)
        if req is None:
            return 0
        try:
            r = lint.serve(req)
        except BaseException as e:  # noqa
            r = {"error": repr(e)}
        _send(fout, r)
