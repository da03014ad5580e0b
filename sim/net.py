"""Simulated network: everything that goes through `requests` ends up here instead of in a socket.

The real requests/urllib3 response machinery (decoding, content-length enforcement, error mapping) runs on top of a
simulated byte stream.
"""

import gzip
import io
import re
import socket

from . import kernel
from .seams import cur

FAULTS = [
    "dns", "refused", "connect_timeout", "stall", "reset_before", "reset_body", "truncated", "http500", "http404",
    "http503", "empty200", "html200", "slow", "garbage", "http202", "http204", "json404", "json200", "portal", "loop", "badgzip",
]
ODD_JSON = ["{}", "[]", "null", "7", '"x"', '{"message": "Not Found"}', '{"releases": {}}', '{"releases": null}', '{"releases": []}',
            '{"releases": {"99.0.0": null}}', '{"releases": {"99.0.0": [null]}}', '{"releases": {"99.0.0": {}}}',
            '{"releases": {"99.0.0": []}}', '{"releases": {"": [{}]}}', '[{"releases": {}}]', '{"info": {"version": "99.0.0"}}']
PORTAL = "http://portal.test/login"


class Body(io.RawIOBase):
    """The response body as it arrives."""

    def __init__(self, sim, data, fault, timeout):
        self.sim, self.data, self.fault, self.timeout = sim, data, fault, timeout
        self.pos = 0
        self.length = len(data)
        self.cut = None
        self.failed = False
        if fault and fault["k"] in ("reset_body", "truncated", "stall_body"):
            self.cut = int(len(data) * fault["r"])

    def readable(self):
        return True

    def read(self, n=-1):
        s, t = cur()
        if t is not None:
            s.point("net.recv", "")
        if n is None or n < 0:
            n = len(self.data)
        end = min(len(self.data), self.pos + n)
        if self.cut is not None and end >= self.cut:
            end = max(self.pos, self.cut)
            if self.pos >= self.cut:
                k = self.fault["k"]
                if self.failed:
                    return b""  # urllib3 has closed the connection since
                self.failed = k != "truncated"
                if k == "reset_body":
                    raise ConnectionResetError(104, "Connection reset by peer")
                if k == "stall_body":
                    wait(self.sim, self.timeout)
                    raise socket.timeout("timed out")
                return b""  # truncated: the peer closed early
        b = self.data[self.pos : end]
        self.pos = end
        if self.fault and self.fault["k"] == "slow" and t is not None:
            s.sleep(min(2.5, 0.2 + 2 * self.fault["r"]), "slow_net")
        return b

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def close(self):
        super().close()


def wait(sim, timeout):
    """The peer is silent: without a timeout this is forever."""
    if timeout is None:
        sim.sleep(1e9, "net_stall_forever")
    else:
        sim.sleep(timeout, "net_stall")


def http_date(t):
    from email.utils import formatdate

    return formatdate(t, usegmt=True)


class Net:
    def __init__(self, sim):
        self.sim = sim
        self.hosts = {}  # host -> handler(path, request) -> (status, headers, body)
        self.reachable = True
        self.log = []  # (mono, wall, proc key, url, outcome)
        self.plan = None  # optional fn(url) -> fault or None
        self.gzip = False  # servers compress what they send to whoever accepts that
        self.modified = None  # optional fn(split url) -> moment (mono) of the last publication, by the server's own clock

    def answer(self, u, request, handler, entry):
        """What the server says to requests with conditions (RFC 9110), or for a part of the file."""
        import hashlib
        from email.utils import parsedate_to_datetime

        status, headers, body = handler(u, request)
        if status != 200:
            return status, headers, body
        entry["full"] = body
        etag = '"' + hashlib.sha256(body).hexdigest()[:16] + '"'
        headers = {"ETag": etag, **headers}
        at = None
        if self.modified is not None:
            at = int(self.modified(u) + kernel.EPOCH)
            headers["Last-Modified"] = http_date(at)
        asked = request.headers

        def since(name):
            try:
                return at is not None and at <= parsedate_to_datetime(asked[name]).timestamp()
            except Exception:
                return False

        if "If-None-Match" in asked:
            if asked["If-None-Match"] == "*" or etag in asked["If-None-Match"]:
                self.sim.count("http_304")
                return 304, headers, b""
        elif "If-Modified-Since" in asked and since("If-Modified-Since"):
            self.sim.count("http_304")
            return 304, headers, b""
        m = re.fullmatch(r"bytes=(\d+)-(\d*)", asked.get("Range", "") or "")
        if m and ("If-Range" not in asked or asked["If-Range"] == etag or since("If-Range")):
            a, b = int(m[1]), min(int(m[2] or len(body)), len(body) - 1)
            if a > b:
                return 416, {"Content-Range": f"bytes */{len(body)}"}, b""
            self.sim.count("http_206")
            return 206, {**headers, "Content-Range": f"bytes {a}-{b}/{len(body)}"}, body[a:b + 1]
        if request.method == "HEAD":
            return status, headers, b""
        return status, headers, body

    def send(self, request, timeout):
        import requests
        from requests import exceptions as rex
        from urllib3.response import HTTPResponse

        s = self.sim
        _, task = cur()
        from urllib.parse import urlsplit

        u = urlsplit(request.url)
        ct, rt = timeout if isinstance(timeout, tuple) else (timeout, timeout)
        entry = {"mono": s.mono, "wall": s.wall(), "proc": task.proc.key, "url": request.url, "host": u.hostname,
                 "path": u.path, "outcome": "sent"}
        self.log.append(entry)
        task.proc.requests.append(entry)
        fault = s.point("net", f"{request.method} {request.url}", FAULTS if self.reachable else None)
        stuck = s.cfg.get("net_stuck", {}).get(u.hostname) if s.faults_on else None
        if stuck and self.reachable:
            fault = {"k": stuck, "r": 0.5}
            s.count("net_always_" + stuck)
        k = fault["k"] if fault else None
        r = fault["r"] if fault else 0.0
        if not self.reachable:
            k = "offline"
            s.count("net_offline")
        # time for the request to reach the peer
        s.sleep(0.02 + (0.3 * r if fault else 0.0), "net_rtt")
        if k in ("offline", "dns", "refused"):
            entry["outcome"] = k
            raise rex.ConnectionError(f"{k} (simulated)", request=request)
        if k == "connect_timeout":
            wait(s, ct)
            entry["outcome"] = k
            raise rex.ConnectTimeout("connect timeout (simulated)", request=request)
        if k == "reset_before":
            entry["outcome"] = k
            raise rex.ConnectionError("connection reset (simulated)", request=request)
        if k == "stall":
            wait(s, rt)
            entry["outcome"] = k
            raise rex.ReadTimeout("read timeout (simulated)", request=request)
        handler = portal if u.hostname == "portal.test" else self.hosts.get(u.hostname)
        if handler is None:
            entry["outcome"] = "nohost"
            raise rex.ConnectionError("no such host (simulated)", request=request)
        status, headers, body = self.answer(u, request, handler, entry)
        if k in ("http500", "http404", "http503"):
            status, headers, body = int(k[4:]), {"Content-Type": "text/html"}, b"<html>error page</html>"
        elif k == "empty200":
            status, body = 200, b""
        elif k == "html200":
            status, headers = 200, {"Content-Type": "text/html; charset=utf-8"}
            body = b"<html><head><title>Log in to the network</title></head><body>portal</body></html>"
        elif k in ("http202", "http204"):
            status, headers, body = int(k[4:]), {"Content-Type": "text/plain"}, b"" if k == "http204" else b"# in progress\n"
        elif k == "json404":
            status, headers, body = 404, {"Content-Type": "application/json"}, b'{"message": "Not Found"}'
        elif k == "json200":
            status, headers = 200, {"Content-Type": "application/json"}
            body = ODD_JSON[int(r * len(ODD_JSON)) % len(ODD_JSON)].encode()
        elif k == "portal":
            status, headers, body = 302, {"Location": PORTAL}, b""
        elif k == "loop":
            status, headers, body = 301, {"Location": request.url}, b""
        elif k == "badgzip":
            headers = {**headers, "Content-Encoding": "gzip"}
        elif k == "garbage":
            body = bytes(s.env_rng.getrandbits(8) for _ in range(60))
        headers = dict(headers)
        entry["body"] = body
        if self.gzip and k in (None, "slow", "truncated", "reset_body") and len(body) > 150 and "gzip" in (request.headers.get("Accept-Encoding") or "") \
                and status == 200:
            headers["Content-Encoding"] = "gzip"
            body = gzip.compress(body, 6, mtime=0)
            s.count("gzip_answer")
        headers["Content-Length"] = str(len(body))
        entry["status"] = status
        entry["fault"] = k
        raw = HTTPResponse(
            body=Body(s, body, fault if k in ("reset_body", "truncated", "slow") else None, rt),
            headers=headers, status=status, preload_content=False, decode_content=True,
            enforce_content_length=True, request_method=request.method,
        )
        entry["outcome"] = "response" if k is None else k
        if k in ("reset_body", "truncated") and not body:
            entry["outcome"] = "response"
        return raw


def portal(u, req):
    return 200, {"Content-Type": "text/html"}, b"<html><body>Log in to use this network</body></html>"


def install():
    import requests.adapters as ra

    orig = ra.HTTPAdapter.send

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        s, t = cur()
        if t is None or s.net is None:
            if kernel.ACTIVE is not None:
                raise kernel.HarnessError("request outside a simulated task")
            return orig(self, request, stream, timeout, verify, cert, proxies)
        raw = s.net.send(request, timeout)
        return self.build_response(request, raw)

    ra.HTTPAdapter.send = send

    # any other way out is a refused connection, and is counted
    def refuse(*a, **k):
        s, t = cur()
        if t is not None:
            s.count("unmodelled_connect")
            s.net.log.append({"mono": s.mono, "wall": s.wall(), "proc": t.proc.key, "url": "raw-socket",
                              "host": "raw-socket", "path": "", "outcome": "refused"})
            raise ConnectionRefusedError(111, "Connection refused (simulated)")
        return real(*a, **k)

    real = socket.create_connection
    socket.create_connection = refuse
