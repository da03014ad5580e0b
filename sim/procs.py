"""Simulated child processes: subprocess.Popen for code run by a simulated task.

A child is a script of timed actions (write, read its input, ignore or handle SIGTERM, fork a helper that keeps the pipes open,
get stuck uninterruptibly, exit, die of a signal).  Pipes hold 64 KiB; a child writing into a full pipe waits.
"""

import errno
import os
import signal
import subprocess

from . import kernel, seams

PIPE_SIZE = 65536
NEVER = 1e15


class Hang(BaseException):
    """The caller would wait for ever."""


class Pipe:
    def __init__(self):
        self.buf = b""
        self.holders = 1  # the child; +1 for each of its helpers
        self.read_closed = False

    @property
    def eof(self):
        return self.holders <= 0 and not self.buf


class Child:
    """State of one child; advanced lazily to the present."""

    def __init__(self, sim, script, merge=False, sinks=(None, None), has_stdin=True):
        self.sim = sim
        self.now = sim.mono
        self.t0 = self.now
        self.ops = list(script)
        self.pipes = {1: Pipe()}
        self.pipes[2] = self.pipes[1] if merge else Pipe()
        self.sinks = {1: sinks[0], 2: sinks[1]}
        self.streams = [1] if merge else [1, 2]
        self.stdin, self.stdin_eof, self.stdin_used = b"", not has_stdin, 0
        self.status = None
        self.t_dead = None
        self.killed_by_parent = False
        self.signals = []
        self.term = None  # None, "ignore" or an action
        self.stuck_until = -1.0
        self.helpers = []  # (time, text or None)
        self.writing = None  # (stream, rest)
        self.written = {1: b"", 2: b""}
        self.open = True
        self.next = NEVER
        self._schedule()

    # -------------------------------------------------------------------------------- script
    def _schedule(self):
        self.next = self.now + self.ops[0].get("dt", 0.0) if self.ops else NEVER

    def _die(self, status):
        self.status, self.t_dead = status, self.now
        self.writing, self.signals = None, []
        self.ops, self.next = [], NEVER
        self._close()

    def _close(self):
        if self.open:
            self.open = False
            for s in self.streams:
                self.pipes[s].holders -= 1

    def alive(self):
        return self.status is None

    def _deliver(self):
        while self.signals and self.status is None and self.now >= self.stuck_until:
            s = self.signals.pop(0)
            if s == signal.SIGTERM and self.term == "ignore":
                continue
            if s == signal.SIGTERM and isinstance(self.term, dict):
                self.ops, self.writing = [{"dt": self.term["dt"], "op": "exit", "code": self.term["code"]}], None
                self.term = "ignore"
                self._schedule()
                continue
            self._die(-int(s))

    def signal(self, s):
        if self.status is None:
            self.signals.append(s)
            self._deliver()

    def _put(self, stream, data):
        """Write as much as fits."""
        if self.pipes[stream].read_closed:
            self._die(-int(signal.SIGPIPE))
            return b""
        sink = self.sinks[stream]
        if sink is not None:
            sink(data)
            self.written[stream] += data
            return b""
        p = self.pipes[stream]
        room = PIPE_SIZE - len(p.buf)
        p.buf += data[:room]
        self.written[stream] += data[:room]
        return data[room:]

    def _op(self, o):
        k = o["op"]
        if k in ("out", "err"):
            data = bytes.fromhex(o["hex"]) if "hex" in o else o["text"].encode() * o.get("times", 1)
            if not self.open:
                return True
            rest = self._put(1 if k == "out" else 2, data)
            if rest:
                self.writing = (1 if k == "out" else 2, rest)
            return True
        if k in ("read", "echo"):
            if not self.stdin_eof:
                return False
            got, self.stdin = self.stdin, b""
            self.stdin_used += len(got)
            if k == "echo" and self.open:
                rest = self._put(1, got)
                if rest:
                    self.writing = (1, rest)
            return True
        if k == "exit":
            self._die(o["code"])
        elif k == "die":
            self._die(-o["sig"])
        elif k == "ignore_term":
            self.term = "ignore"
        elif k == "on_term":
            self.term = {"dt": o["after"], "code": o["code"]}
        elif k == "close":
            self._close()
        elif k == "fork":
            for s in self.streams:
                if self.open:
                    self.pipes[s].holders += 1
            if self.open:
                self.helpers.append([self.now + o["hold"], o.get("text")])
        elif k == "stuck":
            self.stuck_until = self.now + o["for"]
            self.ops.insert(0, {"dt": o["for"], "op": "nothing"})
        elif k == "hang":
            self.ops = [{"dt": NEVER, "op": "nothing"}]
        return True

    def advance(self, until, drain=None):
        """Bring the child to time `until`; drain(self) is called whenever it wrote something and the parent reads."""
        while True:
            if self.writing and self.status is None:
                rest = self._put(*self.writing)
                self.writing = (self.writing[0], rest) if rest and self.status is None else None
                if not self.writing and self.status is None:
                    self._schedule()
            if drain:
                drain(self)
                if self.writing and any(len(self.pipes[s].buf) < PIPE_SIZE for s in [self.writing[0]]):
                    continue
            t = self.event_time()
            if t > until:
                break
            self.now = max(self.now, t)
            if self.signals and self.now >= self.stuck_until:
                self._deliver()
                continue
            due = [h for h in self.helpers if h[0] <= self.now]
            if due:
                h = due[0]
                self.helpers.remove(h)
                if h[1] and not self.pipes[1].read_closed:
                    self.pipes[1].buf += h[1].encode()
                for s in self.streams:
                    self.pipes[s].holders -= 1
                continue
            if self.status is None and not self.writing and self.ops and self.next <= self.now:
                o = self.ops.pop(0)
                if not self._op(o):  # waits for its input
                    self.ops.insert(0, o)
                    self.next = NEVER
                elif self.status is None and not self.writing:
                    self._schedule()
        self.now = max(self.now, until) if until < NEVER else self.now

    def input_ready(self):
        if self.status is None and self.ops and self.ops[0]["op"] in ("read", "echo") and self.next == NEVER:
            self.next = self.now

    def event_time(self):
        t = NEVER
        if self.signals:
            t = min(t, max(self.stuck_until, self.now))
        if self.status is None and not self.writing:
            t = min(t, self.next)
        for h in self.helpers:
            t = min(t, h[0])
        return t


def ideal(script, data):
    """What the child does when nobody disturbs it and its pipes are always read:
    (time its output is closed and it is gone, status, stdout, stderr)."""

    class Clock:
        mono = 0.0

    c = Child(Clock, script)
    c.stdin, c.stdin_eof = data, True
    got = {1: b"", 2: b""}

    def drain(ch):
        for s in ch.streams:
            got[s] += ch.pipes[s].buf
            ch.pipes[s].buf = b""

    while True:
        t = c.event_time()
        if t >= NEVER / 2:
            break
        c.advance(t, drain)
        if c.status is not None and not c.helpers:
            break
    if c.status is None or c.now >= NEVER / 2:
        return NEVER, None, got[1], got[2], c
    return c.now, c.status, got[1], got[2], c


class Reader:
    """The parent's end of a pipe of the child."""

    def __init__(self, popen, stream):
        self.p, self.stream, self.closed = popen, stream, False

    def _avail(self, want):
        pipe = self.p.child.pipes[self.stream]
        self.p._until(lambda: pipe.eof or pipe.holders <= 0 or len(pipe.buf) >= want, None)
        return pipe

    def _bytes(self, n=-1):
        out = b""
        pipe = self.p.child.pipes[self.stream]
        while n < 0 or len(out) < n:
            self.p._until(lambda: pipe.buf or pipe.holders <= 0, None)
            if not pipe.buf:
                break
            take = len(pipe.buf) if n < 0 else n - len(out)
            out, pipe.buf = out + pipe.buf[:take], pipe.buf[take:]
        return out

    def read(self, n=-1):
        return self.p._dec(self._bytes(-1 if n is None else n))

    def read1(self, n=-1):
        pipe = self.p.child.pipes[self.stream]
        self.p._until(lambda: pipe.buf or pipe.holders <= 0, None)
        out, pipe.buf = pipe.buf, b""
        return out

    def readline(self):
        out = b""
        while not out.endswith(b"\n"):
            c = self._bytes(1)
            if not c:
                break
            out += c
        return self.p._dec(out)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def close(self):
        if not self.closed:
            self.closed = True
            self.p.child.pipes[self.stream].read_closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Writer:
    def __init__(self, popen):
        self.p, self.closed = popen, False

    def write(self, data):
        if self.p.text:
            data = data.encode()
        if self.closed:
            raise ValueError("write to closed file")
        self.p._now()
        if self.p.child.status is not None:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        self.p.child.stdin += data
        return len(data)

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            self.p.child.stdin_eof = True
            self.p.child.input_ready()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


RealPopen = subprocess.Popen


class Popen(RealPopen):
    def __new__(cls, *a, **k):
        s, t = seams.cur()
        return object.__new__(SimPopen if t is not None and cls is Popen else cls)


class SimPopen(Popen):
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None,
                 extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        s, t = seams.cur()
        self.sim = s
        self.args = args
        self.returncode = None
        self.text = bool(text or encoding or errors or universal_newlines)
        self.encoding, self.errors = encoding or "utf-8", errors or "strict"
        self.stdin = self.stdout = self.stderr = None
        self._collected = {1: b"", 2: b""}
        self._started = False
        self.child = None
        f = s.point("spawn", str(args)[:60], ["ENOENT", "EACCES", "EAGAIN", "ENOMEM"])
        spec = t.proc.meta["commands"](args)
        if f or spec is None:
            e = f["k"] if f else "ENOENT"
            t.proc.meta.setdefault("spawn_failed", []).append(e)
            raise OSError(getattr(errno, e), os.strerror(getattr(errno, e)), str(args[0]) if args else None)
        for x in (preexec_fn, ):
            if x is not None:
                raise kernel.HarnessError("preexec_fn is not simulated")

        def sink(target):
            if target == subprocess.PIPE:
                return None
            if target in (None, subprocess.DEVNULL):
                return lambda d: None
            fd = target if isinstance(target, int) else target.fileno()
            return lambda d: os.write(fd, d)

        merge = stderr == subprocess.STDOUT
        so = sink(stdout)
        self.child = Child(s, spec["script"], merge, (so, so if merge else sink(stderr)), stdin == subprocess.PIPE)
        self.child.args, self.child.spec, self.child.group = list(args), spec, start_new_session
        s.children.append(self.child)
        self.pid = 10**8 + len(s.children)
        self.child.pid = self.pid
        if stdin == subprocess.PIPE:
            self.stdin = Writer(self)
        if stdout == subprocess.PIPE:
            self.stdout = Reader(self, 1)
        if stderr == subprocess.PIPE:
            self.stderr = Reader(self, 2)
        s.count("child_started")

    def __del__(self, *a, **k):
        pass

    # ------------------------------------------------------------------------- time
    def _now(self, drain=None):
        self.child.advance(self.sim.mono, drain)

    def _until(self, cond, end, drain=None):
        """Wait for a condition on the child; False when `end` is reached first."""
        s = self.sim
        while True:
            self._now(drain)
            if end is not None and s.mono > end:  # as subprocess: too late even if it has happened meanwhile
                return False
            if cond():
                return True
            if end is not None and s.mono >= end:
                return False
            t = self.child.event_time()
            if end is not None:
                t = min(t, end)
            if t >= NEVER / 2:
                raise Hang()
            if t > s.mono + 1e6:
                raise Hang()
            s.sleep(max(0.0, t - s.mono), "child")
            task = s.task()
            v = s.decide(f"stall:{task.key}:{task.points}",
                         lambda: round(s.rng.choice([0.001, 0.05, 1.0, 7.0]) * s.rng.random(), 4)
                         if s.chance(s.cfg.get("p_stall", 0)) else 0)
            if v:
                s.count("parent_stalled")
                s.stalled += v
                s.sleep(v, "stall")
            if s.int_at:
                s.signal(task, "child")

    def _drain(self, ch):
        for n, r in ((1, self.stdout), (2, self.stderr)):
            if r is not None and not r.closed and n in ch.streams:
                self._collected[n] += ch.pipes[n].buf
                ch.pipes[n].buf = b""

    # ------------------------------------------------------------------------- interface
    def poll(self):
        self.sim.point("poll", str(self.pid))
        return self._poll()

    def _poll(self):
        self._now()
        if self.returncode is None and self.child.status is not None:
            self.returncode = self.child.status
            self.child.reaped = True
        return self.returncode

    def wait(self, timeout=None):
        self.sim.point("wait", str(self.pid))
        end = None if timeout is None else self.sim.mono + timeout
        self._wait(end, timeout)
        return self.returncode

    def _wait(self, end, timeout):
        if self.returncode is None:
            if not self._until(lambda: self.child.status is not None, end):
                raise subprocess.TimeoutExpired(self.args, timeout)
            self.returncode = self.child.status
            self.child.reaped = True

    def communicate(self, input=None, timeout=None):
        s = self.sim
        if self._started and input:
            raise ValueError("Cannot send input after starting communication")
        s.point("communicate", str(self.pid))
        end = None if timeout is None else s.mono + timeout
        self._now()
        if self.stdin is not None and not self.stdin.closed:
            if input:
                self.child.stdin += input.encode(self.encoding) if isinstance(input, str) and self.text else input
            self.stdin.close()
        self._started = True
        try:
            readers = [r for r in (self.stdout, self.stderr) if r is not None and not r.closed]
            done = lambda: all(self.child.pipes[r.stream].eof for r in readers)  # noqa
            if not self._until(done, end, self._drain):
                raise subprocess.TimeoutExpired(self.args, timeout, self._collected[1] or None, self._collected[2] or None)
            for r in readers:
                r.close()
            self._wait(end, timeout)
        except KeyboardInterrupt:
            try:
                self._wait(s.mono + 0.25, 0.25)
            except subprocess.TimeoutExpired:
                pass
            raise
        return (self._dec(self._collected[1]) if self.stdout is not None else None,
                self._dec(self._collected[2]) if self.stderr is not None else None)

    def _dec(self, b):
        return b.decode(self.encoding, self.errors).replace("\r\n", "\n").replace("\r", "\n") if self.text else b

    def send_signal(self, sig):
        self.sim.point("signal", f"{self.pid} {int(sig)}")
        if self._poll() is None:
            deliver(self.child, sig)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in (self.stdout, self.stderr, self.stdin):
            if f:
                f.close()
        self.wait()


def deliver(child, sig):
    child.sim.log("signal", child.pid, int(sig))
    child.sim.count(f"signal_{int(sig)}")
    child.signaled = True
    child.signal(signal.Signals(sig))


def install():
    subprocess.Popen = Popen
    import atexit

    for n in ("register", "unregister"):
        seams.O["atexit_" + n] = getattr(atexit, n)

    def register(fn, *a, **k):
        s, t = seams.cur()
        if t is None or "atexit" not in t.proc.meta:
            return seams.O["atexit_register"](fn, *a, **k)
        t.proc.meta["atexit"].append((fn, a, k))
        return fn

    def unregister(fn):
        s, t = seams.cur()
        if t is None or "atexit" not in t.proc.meta:
            return seams.O["atexit_unregister"](fn)
        t.proc.meta["atexit"][:] = [x for x in t.proc.meta["atexit"] if x[0] != fn]

    atexit.register, atexit.unregister = register, unregister
    for n in ("nice", "kill", "killpg", "getpgid", "waitpid"):
        seams.O["os_" + n] = getattr(os, n)

    def nice(n):
        s, t = seams.cur()
        if t is None:
            return seams.O["os_nice"](n)
        if s.point("nice", str(n), ["EPERM"]):
            raise PermissionError(errno.EPERM, "Operation not permitted")
        return n

    def find(s, pid):
        c = next((c for c in getattr(s, "children", []) if c.pid == pid), None)
        if c is None:
            raise ProcessLookupError(errno.ESRCH, "No such process")
        return c

    def kill(pid, sig):
        s, t = seams.cur()
        if t is None:
            return seams.O["os_kill"](pid, sig)
        c = find(s, pid)
        c.advance(s.mono)
        if sig:
            deliver(c, sig)

    def killpg(pid, sig):
        s, t = seams.cur()
        if t is None:
            return seams.O["os_killpg"](pid, sig)
        c = find(s, pid)
        c.advance(s.mono)
        if sig == signal.SIGKILL or c.term is None:
            for h in c.helpers:
                h[0], h[1] = c.now, None
        deliver(c, sig)

    def getpgid(pid):
        s, t = seams.cur()
        if t is None:
            return seams.O["os_getpgid"](pid)
        find(s, pid)
        return pid

    def waitpid(pid, options):
        s, t = seams.cur()
        if t is None:
            return seams.O["os_waitpid"](pid, options)
        raise ChildProcessError(errno.ECHILD, "No child processes")

    os.nice, os.kill, os.killpg, os.getpgid, os.waitpid = nice, kill, killpg, getpgid, waitpid
