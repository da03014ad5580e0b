"""Seams: every source of nondeterminism the code under test can reach is replaced by one the simulator owns.

``install()`` runs once, before edulint is imported.  Outside a simulated task every wrapper falls through to the
original, so the interpreter itself, imports and the harness behave normally.

 V paths  (under VROOT)       -> in-memory file system, crash and power-loss semantics, fault points
 R paths  (under sim.rroot)   -> real scratch files, with fault points and seeded directory order
 other                        -> untouched
"""

import builtins
import errno
import io
import os
import random
import sys
import threading
import time
import _thread

from . import kernel
from .vfs import VFS, FD_BASE, PAGE

VROOT = "/simfs"
VTMP = VROOT + "/tmp/"
BOOT_VFS = None

O = {}  # originals


def sim():
    return kernel.ACTIVE


def cur():
    """(sim, task) when called from a simulated task."""
    s = kernel.ACTIVE
    if s is None:
        return None, None
    return s, s.by_ident.get(_thread.get_ident())


def vfs():
    s = kernel.ACTIVE
    return s.vfs if s is not None and s.vfs is not None else BOOT_VFS


def vpath(path):
    if isinstance(path, int) or path is None:
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith(VROOT):
        if p[:1] == "/" or not p:
            return None
        s, t = cur()
        if t is None or t.proc.cwd is None:
            return None
        p = t.proc.cwd + "/" + p
    p = os.path.normpath(p)
    if p != VROOT and not p.startswith(VROOT + "/"):
        return None
    return p


def rpath(path):
    """Path relative to the real scratch root if faults may apply to it."""
    s, t = cur()
    if t is None or s.rroot is None or isinstance(path, int) or path is None:
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        p = O["getcwd"]() + "/" + p
    p = os.path.normpath(p)
    if p == s.rroot:
        return "."
    if p.startswith(s.rroot + "/"):
        return p[len(s.rroot) + 1:]
    return None


def oserr(name, path):
    e = getattr(errno, name)
    return OSError(e, os.strerror(e), path)


def short(p):
    return p[len(VROOT):] or "/"


KLASS = {"open": "data", "read": "data", "listdir": "dir", "stat": "stat"}
CHANGES = {"create", "mkdir", "unlink", "rename", "write", "chmod", "utime"}
KLASSES = ("data", "dir", "stat")


def vpoint(kind, path, faults):
    """Scheduling/fault point for a V operation; raises the injected error."""
    s, t = cur()
    if t is None:
        return None
    if s.vfs is None:
        return None
    if s.on_change is not None and kind in CHANGES:
        s.on_change(t, kind, path)
    under = s.cfg.get("fault_under")
    if under and not (path == under or path.startswith(under + "/") or under.startswith(path + "/")):
        faults = None
    s.signal(t, kind)
    bad = s.sticky.get((KLASS.get(kind), path))
    if bad:
        s.point(kind, short(path))
        raise oserr(bad, path)
    f = s.point(kind, short(path), faults)
    if f and f["k"] in ("EIO", "EACCES", "ENOSPC", "EROFS", "EMFILE", "ENOENT"):
        s.vfaults.append((path, kind, f["k"]))
        if s.cfg.get("sticky") and KLASS.get(kind) in s.cfg.get("sticky_kinds", KLASSES):
            s.sticky[(KLASS[kind], path)] = f["k"]
        raise oserr(f["k"], path)
    ro = s.cfg.get("readonly_data")
    if ro and kind in ("mkdir", "create", "rename", "unlink"):
        s.count("readonly_home")
        raise oserr("EROFS" if ro == 1 else "EACCES", path)
    return f


# ---------------------------------------------------------------------------------------------- files
class VRaw(io.RawIOBase):
    def __init__(self, fd, mode_name, closefd=True, name=None):
        self._fd = fd
        self._closefd = closefd
        self.mode = mode_name
        self.name = name if name is not None else fd

    def _of(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        of = vfs().fds.get(self._fd)
        if of is None:
            raise OSError(errno.EBADF, "Bad file descriptor")
        return of

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def readable(self):
        return self._of().readable

    def writable(self):
        return self._of().writable

    def seekable(self):
        return True

    def readinto(self, b):
        data = v_read(self._fd, len(b))
        b[: len(data)] = data
        return len(data)

    def readall(self):
        out = bytearray()
        while True:
            d = v_read(self._fd, PAGE)
            if not d:
                return bytes(out)
            out += d

    def write(self, b):
        return v_write(self._fd, bytes(b))

    def seek(self, pos, whence=0):
        of = self._of()
        base = 0 if whence == 0 else of.pos if whence == 1 else len(of.inode.data)
        of.pos = max(0, base + pos)
        return of.pos

    def tell(self):
        return self._of().pos

    def truncate(self, size=None):
        of = self._of()
        size = of.pos if size is None else size
        vpoint("write", of.path, ["EIO"])
        vfs().truncate(of.inode, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._closefd:
                    v_close(self._fd)


def _dead():
    """True when this thread belongs to a process that is gone (its buffers must not reach the disk)."""
    s, t = cur()
    return t is not None and not t.proc.alive


def v_open_fd(path, flags, mode=0o777):
    v = vfs()
    s, t = cur()
    creating = bool(flags & os.O_CREAT) or bool(flags & os.O_TRUNC)
    exists = True
    try:
        v.lookup(path)
    except OSError:
        exists = False
    if creating:
        vpoint("create", path, ["EIO", "EACCES", "ENOSPC", "EMFILE"])
    else:
        vpoint("open", path, ["EIO", "EACCES", "EMFILE"])
    del exists
    if flags & os.O_ACCMODE != os.O_RDONLY and s is not None and s.cfg.get("readonly_data"):
        raise oserr("EROFS", path)
    return vfs().open(path, flags, mode, t.proc if t else None)


def v_read(fd, n):
    of = vfs().fds.get(fd)
    if of is None:
        raise OSError(errno.EBADF, "Bad file descriptor")
    if not of.readable:
        raise io.UnsupportedOperation("not readable")
    f = vpoint("read", of.path, ["EIO", "short"])
    n = min(n, PAGE)
    if f and f["k"] == "short":
        n = max(1, int(n * f["r"]))
    data = bytes(of.inode.data[of.pos : of.pos + n])
    of.pos += len(data)
    return data


def v_write(fd, data):
    if _dead():
        return len(data)
    done = 0
    while done < len(data):
        of = vfs().fds.get(fd)
        if of is None:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if not of.writable:
            raise io.UnsupportedOperation("not writable")
        if of.enospc:
            raise oserr("ENOSPC", of.path)
        s, t = cur()
        chunk = data[done : done + PAGE]
        if t is not None and s.vfs is not None:
            if s.on_change is not None:
                s.on_change(t, "write", of.path)
            f = s.point("write", f"{short(of.path)} {len(chunk)}", ["EIO", "ENOSPC", "torn_kill", "slow"])
            if f:
                if f["k"] == "EIO":
                    raise oserr("EIO", of.path)
                if f["k"] == "ENOSPC":
                    n = int(len(chunk) * f["r"])
                    if n:
                        vfs().write(of, chunk[:n])
                    of.enospc = True
                    if done + n:
                        return done + n
                    raise oserr("ENOSPC", of.path)
                if f["k"] == "torn_kill":
                    n = int(len(chunk) * f["r"])
                    vfs().write(of, chunk[:n])
                    s.log("KILL in write", t.key)
                    s.count("kill_process")
                    s.kill(t.proc)
                    s._freeze(t)
                if f["k"] == "slow":
                    s.slow_disk = True
                    s.sleep(0.5 + 5 * f["r"], "slow_write")
        vfs().write(of, chunk)
        done += len(chunk)
    return done


def v_close(fd):
    of = vfs().fds.pop(fd, None)
    if of is not None:
        of.inode.locks = [h for h in of.inode.locks if h[0] != fd]
        if not _dead():
            s, t = cur()
            if t is not None and s.vfs is not None:
                s.point("close", short(of.path))


def _wrap_fd(fd, mode, buffering, encoding, errors, newline, closefd, name):
    modes = set(mode)
    reading, writing = "r" in modes, bool(modes & {"w", "x", "a"})
    updating, binary = "+" in modes, "b" in modes
    raw = VRaw(fd, mode, closefd, name)
    if "a" in modes:
        raw.seek(0, 2)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line_buffering = False
    if buffering == 1 and not binary:
        buffering, line_buffering = -1, True
    if buffering < 0:
        buffering = io.DEFAULT_BUFFER_SIZE
    if updating:
        buf = io.BufferedRandom(raw, buffering)
    elif writing:
        buf = io.BufferedWriter(raw, buffering)
    else:
        buf = io.BufferedReader(raw, buffering)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering)
    text.mode = mode
    return text


def _flags(mode):
    m = set(mode)
    up = "+" in m
    if "x" in m:
        return (os.O_RDWR if up else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
    if "w" in m:
        return (os.O_RDWR if up else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
    if "a" in m:
        return (os.O_RDWR if up else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
    return os.O_RDWR if up else os.O_RDONLY


class Null:
    """/dev/null in place of a standard stream."""

    def write(self, b):
        return len(b)


class Closed:
    def write(self, b):
        raise OSError(errno.EBADF, "Bad file descriptor")


class RRaw(io.RawIOBase):
    """A real scratch file opened by the code under test, with fault points on reads."""

    def __init__(self, f, rel):
        self._f, self._rel = f, rel
        self.name, self.mode = f.name, f.mode

    def fileno(self):
        return self._f.fileno()

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def readinto(self, b):
        s, t = cur()
        if t is not None:
            f = s.point("r.read", self._rel, ["EIO", "short"])
            if f:
                if f["k"] == "EIO":
                    note_rfault(s, self._rel, f)
                    raise oserr("EIO", self.name)
                if f["k"] == "short" and len(b) > 1:
                    n = max(1, int(len(b) * f["r"]))
                    return self._f.readinto(memoryview(b)[:n])
        return self._f.readinto(b)

    def close(self):
        if not self.closed:
            super().close()
            self._f.close()


def note_rfault(s, rel, f):
    s.rfaults.append((rel, f["k"]))


R_OPEN_FAULTS = ["EIO", "EACCES", "ENOENT", "EMFILE"]


def s_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int) and not isinstance(file, bool) and file >= FD_BASE:
        return _wrap_fd(file, mode, buffering, encoding, errors, newline, closefd, file)
    p = vpath(file)
    if p is not None:
        if opener is not None:
            fd = opener(file, _flags(mode))
            if fd < FD_BASE:
                return O["open"](fd, mode, buffering, encoding, errors, newline)
        else:
            fd = v_open_fd(p, _flags(mode), 0o666 & ~0o022)
        of = vfs().fds[fd]
        if of.inode.kind == "d":
            vfs().fds.pop(fd, None)
            raise oserr("EISDIR", p)
        return _wrap_fd(fd, mode, buffering, encoding, errors, newline, True, file)
    if kernel.ACTIVE is not None:
        rel = rpath(file)
        if rel is not None:
            s, t = cur()
            f = s.point("r.open", rel, R_OPEN_FAULTS)
            if f:
                note_rfault(s, rel, f)
                raise oserr(f["k"], file)
            if "r" in mode and "+" not in mode and opener is None:
                raw = RRaw(O["open"](file, "rb", 0), rel)
                if buffering == 0:
                    return raw
                buf = io.BufferedReader(raw)
                if "b" in mode:
                    return buf
                text = io.TextIOWrapper(buf, encoding, errors, newline)
                text.mode = mode
                return text
        if set(mode) & set("wax+"):
            deny(file)
    return O["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)


def deny(path):
    """The code under test must not change anything outside the simulation."""
    s, t = cur()
    if t is None or isinstance(path, int) or str(path).startswith("/dev/"):
        return
    s.escapes.append(str(path))
    s.log("ESCAPE", str(path))
    raise oserr("EROFS", path)


def _os1(name, kind, faults, vfun, rfaults=None):
    """Wrap os.<name>(path, ...)"""

    orig = getattr(os, name)
    O[name] = orig

    def wrapper(path=".", *a, **k):
        p = vpath(path)
        if p is not None:
            vpoint(kind, p, faults)
            return vfun(p, *a, **k)
        if rfaults is not None and kernel.ACTIVE is not None:
            rel = rpath(path)
            if rel is not None:
                s, t = cur()
                f = s.point("r." + kind, rel, rfaults)
                if f:
                    note_rfault(s, rel, f)
                    raise oserr(f["k"], path)
        if kind in CHANGES and kernel.ACTIVE is not None:
            deny(path)
        return orig(path, *a, **k)

    wrapper.__name__ = name
    setattr(os, name, wrapper)


def _v_stat(p, **_k):
    return vfs().stat(vfs().lookup(p))


class VDirEntry:
    def __init__(self, base, name, node):
        self.name, self.path, self._n = name, os.path.join(base, name), node

    def is_dir(self, **_k):
        return self._n.kind == "d"

    def is_file(self, **_k):
        return self._n.kind == "f"

    def is_symlink(self):
        return False

    def stat(self, **_k):
        return vfs().stat(self._n)

    def inode(self):
        return self._n.ino

    def __fspath__(self):
        return self.path


class VScan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _order(s, names, where):
    """Directory order is the file system's choice: take it from the run's PRNG-derived permutation."""
    names = sorted(names)
    key = s.cfg.get("dir_order")
    if key is None:
        return names
    r = random.Random(f"dir-{key}-{where}")
    r.shuffle(names)
    return names


def v_order(path, names):
    s = sim()
    if s is None or s.cfg.get("dir_order") is None or not path.startswith(PROJ):
        return names
    return _order(s, names, path)


PROJ = VROOT + "/proj"


def install():
    global BOOT_VFS
    BOOT_VFS = VFS(VROOT, lambda: 0.0)
    O["open"] = builtins.open
    O["getcwd"] = os.getcwd
    builtins.open = s_open
    io.open = s_open
    import tokenize

    tokenize._builtin_open = s_open

    # -- working directory
    O["chdir"] = os.chdir

    def getcwd():
        s, t = cur()
        if t is None or t.proc.cwd is None:
            return O["getcwd"]()
        return t.proc.cwd

    def chdir(path):
        s, t = cur()
        p = vpath(path)
        if t is None or p is None:
            if t is not None:
                raise oserr("ENOENT", path)
            return O["chdir"](path)
        if vfs().lookup(p).kind != "d":
            raise oserr("ENOTDIR", p)
        t.proc.cwd = p

    os.getcwd, os.chdir = getcwd, chdir

    # -- name space
    O["stat"], O["lstat"] = os.stat, os.lstat

    def mk_stat(name):
        orig = O[name]

        def st(path, *a, **k):
            if isinstance(path, int):
                if path >= FD_BASE:
                    return vfs().stat(vfs().fds[path].inode)
                return orig(path, *a, **k)
            p = vpath(path)
            if p is not None:
                vpoint("stat", p, ["EIO", "EACCES"])
                return _v_stat(p)
            if kernel.ACTIVE is not None:
                rel = rpath(path)
                if rel is not None:
                    s, t = cur()
                    f = s.point("r.stat", rel, ["EACCES", "ENOENT"])
                    if f:
                        note_rfault(s, rel, f)
                        raise oserr(f["k"], path)
            return orig(path, *a, **k)

        return st

    os.stat, os.lstat = mk_stat("stat"), mk_stat("lstat")
    os.stat.__name__ = "stat"

    _os1("mkdir", "mkdir", ["EIO", "EACCES", "ENOSPC"], lambda p, *a, **k: vfs().mkdir(p))
    _os1("unlink", "unlink", ["EIO", "EACCES"], lambda p, **k: vfs().unlink(p))
    _os1("remove", "unlink", ["EIO", "EACCES"], lambda p, **k: vfs().unlink(p))
    _os1("rmdir", "unlink", ["EIO"], lambda p, **k: vfs().rmdir(p))
    _os1("chmod", "chmod", [], lambda p, *a, **k: None)
    _os1("utime", "utime", [], lambda p, times=None, **k: _v_utime(p, times, **k))
    _os1("access", "stat", [], lambda p, mode=os.F_OK, **k: _v_access(p, mode))
    _os1("truncate", "write", ["EIO"], lambda p, n: vfs().truncate(vfs().lookup(p), n))
    _os1("readlink", "stat", [], lambda p, **k: (_ for _ in ()).throw(oserr("EINVAL", p)))

    def _v_utime(p, times=None, ns=None, **k):
        node = vfs().lookup(p)
        node.mtime = ns[1] / 1e9 if ns is not None else times[1] if times is not None else vfs().clock()

    def _v_access(p, mode):
        try:
            node = vfs().lookup(p)
        except OSError:
            return False
        s = sim()
        if mode & os.R_OK and (not node.mode & 0o400 or s is not None and s.sticky.get(("data", p)) == "EACCES"):
            return False
        return True

    O["listdir"], O["scandir"] = os.listdir, os.scandir

    def listdir(path="."):
        p = vpath(path)
        if p is not None:
            vpoint("listdir", p, ["EIO", "EACCES"])
            names = v_order(p, vfs().listdir(p))
            s = sim()
            return _order(s, names, p) if s is not None else names
        if kernel.ACTIVE is not None:
            rel = rpath(path)
            if rel is not None:
                s, t = cur()
                f = s.point("r.listdir", rel, ["EIO", "EACCES"])
                if f:
                    note_rfault(s, rel, f)
                    raise oserr(f["k"], path)
                return _order(s, O["listdir"](path), rel)
        return O["listdir"](path)

    def scandir(path="."):
        p = vpath(path)
        if p is not None:
            vpoint("listdir", p, ["EIO", "EACCES"])
            node = vfs().lookup(p)
            if node.kind != "d":
                raise oserr("ENOTDIR", p)
            return VScan([VDirEntry(os.fspath(path), n, node.entries[n]) for n in v_order(p, list(node.entries))])
        if kernel.ACTIVE is not None:
            rel = rpath(path)
            if rel is not None:
                s, t = cur()
                f = s.point("r.listdir", rel, ["EIO", "EACCES"])
                if f:
                    note_rfault(s, rel, f)
                    raise oserr(f["k"], path)
                with O["scandir"](path) as it:
                    ents = {e.name: e for e in it}
                return VScan([ents[n] for n in _order(s, list(ents), rel)])
        return O["scandir"](path)

    os.listdir, os.scandir = listdir, scandir

    O["rename"], O["replace"], O["link"] = os.rename, os.replace, os.link

    def mk2(name, fun):
        orig = O[name]

        def op(src, dst, *a, **k):
            ps, pd = vpath(src), vpath(dst)
            if ps is None and pd is None:
                deny(dst)
                return orig(src, dst, *a, **k)
            if ps is None or pd is None:
                raise oserr("EXDEV", str(src))
            s, t = cur()
            if t is not None and s.on_change is not None and name != "link":
                s.on_change(t, "rename", ps)
            vpoint("rename", pd, ["EIO", "EACCES"])
            if (ps + "/").startswith(VTMP) != (pd + "/").startswith(VTMP):  # a file system of its own
                raise oserr("EXDEV", ps)
            fun(ps, pd)

        op.__name__ = name
        setattr(os, name, op)

    mk2("rename", lambda a, b: vfs().rename(a, b))
    mk2("replace", lambda a, b: vfs().rename(a, b))
    mk2("link", lambda a, b: vfs().link(a, b))

    # -- descriptors
    O["os_open"] = os.open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        p = vpath(path)
        if p is not None:
            return v_open_fd(p, flags, mode)
        if kernel.ACTIVE is not None:
            rel = rpath(path)
            if rel is not None:
                s, t = cur()
                f = s.point("r.open", rel, R_OPEN_FAULTS)
                if f:
                    note_rfault(s, rel, f)
                    raise oserr(f["k"], path)
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                deny(path)
        return O["os_open"](path, flags, mode) if dir_fd is None else O["os_open"](path, flags, mode, dir_fd=dir_fd)

    os.open = os_open

    def mkfd(name, fun):
        orig = getattr(os, name)
        O["os_" + name] = orig

        def op(fd, *a, **k):
            if hasattr(fd, "fileno") and not isinstance(fd, int):
                fd = fd.fileno()
            if isinstance(fd, int) and fd >= FD_BASE:
                return fun(fd, *a, **k)
            if fd in (1, 2) and name in STD:
                s, t = cur()
                if t is not None:
                    return STD[name](t.proc, fd, *a, **k)
            return orig(fd, *a, **k)

        op.__name__ = name
        setattr(os, name, op)

    # the standard streams of a simulated process, used past sys.stdout
    def std_write(proc, fd, b):
        sink = proc.meta.get(f"fd{fd}") or (proc.stdout if fd == 1 else proc.stderr).buffer
        return sink.write(bytes(b))

    def std_close(proc, fd):
        proc.meta[f"fd{fd}"] = Closed()

    STD = {"write": std_write, "isatty": lambda proc, fd: False, "close": std_close}
    O["dup2"] = os.dup2

    def dup2(fd, fd2, inheritable=True):
        s, t = cur()
        if t is None or fd2 not in (0, 1, 2):
            return O["dup2"](fd, fd2, inheritable)
        t.proc.meta[f"fd{fd2}"] = Null() if fd < FD_BASE else VRaw(fd, "wb", False)
        return fd2

    os.dup2 = dup2

    mkfd("close", lambda fd: v_close(fd))
    mkfd("read", lambda fd, n: v_read(fd, n))
    mkfd("write", lambda fd, b: v_write(fd, bytes(b)))
    mkfd("fstat", lambda fd: vfs().stat(vfs().fds[fd].inode))
    mkfd("ftruncate", lambda fd, n: vfs().truncate(vfs().fds[fd].inode, n))
    mkfd("fchmod", lambda fd, m: None)
    mkfd("isatty", lambda fd: False)
    mkfd("set_inheritable", lambda fd, v: None)

    def v_lseek(fd, pos, how):
        of = vfs().fds[fd]
        of.pos = max(0, (0 if how == 0 else of.pos if how == 1 else len(of.inode.data)) + pos)
        return of.pos

    mkfd("lseek", v_lseek)

    def v_fsync(fd):
        if _dead():
            return None
        of = vfs().fds[fd]
        vpoint("fsync", of.path, ["EIO"])
        vfs().fsync(of.inode)

    mkfd("fsync", v_fsync)
    mkfd("fdatasync", v_fsync)

    O["fdopen"] = os.fdopen

    def fdopen(fd, mode="r", buffering=-1, encoding=None, *a, **k):
        return s_open(fd, mode, buffering, encoding, *a, **k)

    os.fdopen = fdopen

    import fcntl

    O["flock"], O["lockf"] = fcntl.flock, fcntl.lockf

    def flock(fd, op, *a):
        if hasattr(fd, "fileno") and not isinstance(fd, int):
            fd = fd.fileno()
        if fd < FD_BASE:
            return O["flock"](fd, op)
        of = vfs().fds[fd]
        node = of.inode
        s, t = cur()
        if op & fcntl.LOCK_UN:
            node.locks = [h for h in node.locks if h[0] != fd]
            return
        ex = bool(op & fcntl.LOCK_EX)

        def free():
            node.locks = [h for h in node.locks if h[2] is None or h[2].alive]
            return not any(h[0] != fd and (ex or h[1]) for h in node.locks)

        if t is not None and s.vfs is not None:
            s.point("flock", short(of.path))
            if not free():
                if op & fcntl.LOCK_NB:
                    raise BlockingIOError(errno.EWOULDBLOCK, "Resource temporarily unavailable")
                s.block(free)
        node.locks.append((fd, ex, t.proc if t else None))

    fcntl.flock = flock
    fcntl.lockf = flock

    # -- identity and randomness
    O["urandom"] = os.urandom

    def urandom(n):
        s, t = cur()
        if t is None:
            return O["urandom"](n)
        return bytes(s.env_rng.getrandbits(8) for _ in range(n))

    os.urandom = urandom
    O["getpid"] = os.getpid

    def getpid():
        s, t = cur()
        return O["getpid"]() if t is None else t.proc.pid

    os.getpid = getpid
    import tempfile

    O["cand"] = tempfile._get_candidate_names

    class _Names:
        def __iter__(self):
            return self

        def __next__(self):
            s = sim()
            s.tmp_n += 1
            return f"t{s.tmp_n:06d}"

    names = _Names()

    def cand():
        s, t = cur()
        return O["cand"]() if t is None else names

    tempfile._get_candidate_names = cand
    import shutil

    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "_USE_CP_COPY_FILE_RANGE"):
        shutil._USE_CP_COPY_FILE_RANGE = False

    # -- time
    for n in ("time", "sleep", "monotonic", "perf_counter", "time_ns", "monotonic_ns"):
        O["time_" + n] = getattr(time, n)

    def t_time():
        s, t = cur()
        return O["time_time"]() if t is None else s.wall()

    def t_time_ns():
        s, t = cur()
        return O["time_time_ns"]() if t is None else int(s.wall() * 1e9)

    def t_mono():
        s, t = cur()
        return O["time_monotonic"]() if t is None else s.mono

    def t_sleep(d):
        s, t = cur()
        if t is None:
            return O["time_sleep"](d)
        s.sleep(d)

    time.time, time.time_ns, time.sleep = t_time, t_time_ns, t_sleep
    time.monotonic = time.perf_counter = t_mono
    import datetime as _dt

    class SimDatetime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(time.time(), _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

    O["datetime"] = _dt.datetime
    SimDatetime.__name__ = "datetime"
    SimDatetime.__qualname__ = "datetime"

    # -- threads and locks
    install_threads()
    # -- processes
    import subprocess

    O["Popen"] = subprocess.Popen
    import multiprocessing

    def no_pool(*a, **k):
        raise OSError(errno.ENOSPC, "no semaphores (simulated)")

    O["Pool"] = multiprocessing.Pool
    multiprocessing.Pool = no_pool
    # -- datetime class only for modules imported from here on
    _dt.datetime = SimDatetime


class SimLock:
    """threading.Lock/RLock whose waiters are simulated tasks; a real lock outside the simulation."""

    _reentrant = False

    def __init__(self):
        self._real = _thread.RLock() if self._reentrant else kernel._allocate()
        self._st = {}  # per simulated process: [owner task, depth]

    def acquire(self, blocking=True, timeout=-1):
        s, t = cur()
        if t is None:
            return self._real.acquire(blocking, timeout)
        st = self._st.setdefault(t.proc.key, [None, 0])
        if self._reentrant and st[0] is t:
            st[1] += 1
            return True
        if st[1]:
            if not blocking:
                return False
            ok = s.block(lambda: st[1] == 0, None if timeout is None or timeout < 0 else timeout, "lock")
            if not ok:
                return False
        st[0], st[1] = t, 1
        return True

    def release(self):
        s, t = cur()
        if t is None:
            return self._real.release()
        st = self._st.get(t.proc.key)
        if not st or not st[1]:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and st[0] is not t:
            raise RuntimeError("cannot release un-acquired lock")
        st[1] -= 1
        if not st[1]:
            st[0] = None

    def locked(self):
        s, t = cur()
        if t is None:
            if self._reentrant:
                return False
            return self._real.locked()
        return bool(self._st.get(t.proc.key, [None, 0])[1])

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _thread.RLock() if self._reentrant else kernel._allocate()
        self._st = {}


class SimRLock(SimLock):
    _reentrant = True

    # Condition protocol
    def _is_owned(self):
        s, t = cur()
        if t is None:
            return self._real._is_owned()
        st = self._st.get(t.proc.key)
        return bool(st and st[0] is t)

    def _release_save(self):
        s, t = cur()
        if t is None:
            return self._real._release_save()
        st = self._st[t.proc.key]
        depth, st[0], st[1] = st[1], None, 0
        return depth

    def _acquire_restore(self, state):
        s, t = cur()
        if t is None:
            return self._real._acquire_restore(state)
        self.acquire()
        self._st[t.proc.key][1] = state


def install_threads():
    O["Thread.start"] = threading.Thread.start
    O["Thread.join"] = threading.Thread.join
    O["Thread.is_alive"] = threading.Thread.is_alive

    def start(self):
        s, t = cur()
        if t is None:
            return O["Thread.start"](self)
        if getattr(self, "_sim_task", None) is not None:
            raise RuntimeError("threads can only be started once")
        s.point("thread_start", "")
        daemon = self.daemon
        task = s.spawn(t.proc, self.run, "thread", daemon=daemon, thread=self, parent=t)
        self._sim_task = task
        s.count("thread_started")

    def join(self, timeout=None):
        task = getattr(self, "_sim_task", None)
        s, t = cur()
        if task is None or t is None:
            return O["Thread.join"](self, timeout)
        s.block(lambda: task.state == "done", timeout, "join")

    def is_alive(self):
        task = getattr(self, "_sim_task", None)
        if task is None:
            return O["Thread.is_alive"](self)
        return task.state != "done"

    threading.Thread.start = start
    threading.Thread.join = join
    threading.Thread.is_alive = is_alive
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    import queue

    queue.SimpleQueue = queue._PySimpleQueue
    import concurrent.futures.thread as cft

    cft.queue.SimpleQueue = queue._PySimpleQueue


# ---------------------------------------------------------------------------------------------- line pre-emption
_TOOL = 3


def _codes(obj, seen):
    import types

    if isinstance(obj, types.CodeType):
        if obj not in seen:
            seen.append(obj)
            for c in obj.co_consts:
                _codes(c, seen)
    return seen


def module_codes(module):
    """All code objects defined by a module (functions, methods, nested functions)."""
    import types

    seen = []
    todo = list(vars(module).values())
    done = set()
    while todo:
        o = todo.pop()
        if id(o) in done:
            continue
        done.add(id(o))
        o = getattr(o, "__wrapped__", o) if not isinstance(o, type) else o
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            todo += [o.fget, o.fset]
            continue
        if isinstance(o, types.FunctionType):
            if o.__code__.co_filename == getattr(module, "__file__", None):
                _codes(o.__code__, seen)
            if hasattr(o, "__wrapped__"):
                todo.append(o.__wrapped__)
        elif isinstance(o, type) and o.__module__ == module.__name__:
            todo += list(vars(o).values())
    return seen


def monitor_calls(modules, skip=()):
    """Function starts, backward jumps and returns from C calls: where CPython runs signal handlers."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL + 1, "sim-calls")
    except ValueError:
        pass
    ev = mon.events

    def start(code, off):
        s, t = cur()
        if t is not None and s.on_call is not None:
            s.on_call(t, code, "start")

    def jump(code, off, dest):
        if dest < off:
            s, t = cur()
            if t is not None and s.on_call is not None:
                s.on_call(t, code, "jump")

    def c_return(code, off, fn, arg):
        s, t = cur()
        if t is not None and s.on_call is not None:
            s.on_call(t, code, "return")

    mon.register_callback(_TOOL + 1, ev.PY_START, start)
    mon.register_callback(_TOOL + 1, ev.JUMP, jump)
    mon.register_callback(_TOOL + 1, ev.C_RETURN, c_return)
    codes = []
    for m in modules:
        codes += module_codes(m)
    for c in codes:
        if c.co_name not in skip:
            mon.set_local_events(_TOOL + 1, c, ev.PY_START | ev.JUMP | ev.CALL)
    return len(codes)


def monitor_lines(modules, callback=None, skip=()):
    """Make every executed line of these modules a scheduling point."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, "sim")
    except ValueError:
        pass
    codes = []
    for m in modules:
        codes += module_codes(m)

    def on_line(code, line):
        s, t = cur()
        if t is None:
            return
        if callback is not None:
            callback(s, t, code, line)
        s.point("line", "")

    mon.register_callback(_TOOL, mon.events.LINE, on_line)
    codes = [c for c in codes if c.co_name not in skip]
    for c in codes:
        mon.set_local_events(_TOOL, c, mon.events.LINE)
    return len(codes)
