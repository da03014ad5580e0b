"""In-memory file system with a durability model.

Volatile state survives the death of a process; a power loss keeps, for every file, a prefix of the operations issued
since its last fsync (the last one possibly torn) and, for the name space, a prefix of the un-committed directory
operations (ordered journal: fsync of any file commits the name space so far).
"""

import errno
import io
import os
import stat as _stat

PAGE = 4096


class Inode:
    _n = 100

    def __init__(self, kind, mtime=0.0):
        Inode._n += 1
        self.ino = Inode._n
        self.kind = kind  # 'f' or 'd'
        self.data = bytearray()
        self.durable = b""
        self.ops = []  # since the last fsync
        self.entries = {}
        self.dentries = {}
        self.mtime = mtime
        self.mode = 0o644 if kind == "f" else 0o755
        self.nlink = 1
        self.locks = []  # flock holders


class OpenFile:
    def __init__(self, inode, path, flags, proc):
        self.inode, self.path, self.flags, self.proc = inode, path, flags, proc
        self.pos = 0
        self.enospc = False

    @property
    def readable(self):
        return self.flags & os.O_ACCMODE in (os.O_RDONLY, os.O_RDWR)

    @property
    def writable(self):
        return self.flags & os.O_ACCMODE in (os.O_WRONLY, os.O_RDWR)


def err(e, path):
    return OSError(e, os.strerror(e), path)


FD_BASE = 1_000_000


class VFS:
    """Pure state machine; fault injection and scheduling points are in seams.py."""

    def __init__(self, root, clock):
        self.rootpath = root
        self.clock = clock
        self.root = Inode("d")
        self.pending = []
        self.fds = {}
        self.next_fd = FD_BASE
        self.last_op = 0.0

    # -- path handling
    def parts(self, path):
        rel = path[len(self.rootpath):]
        return [p for p in rel.split("/") if p]

    def lookup(self, path):
        node = self.root
        for p in self.parts(path):
            if node.kind != "d":
                raise err(errno.ENOTDIR, path)
            if p not in node.entries:
                raise err(errno.ENOENT, path)
            node = node.entries[p]
        return node

    def parent(self, path):
        parts = self.parts(path)
        if not parts:
            raise err(errno.EBUSY, path)
        node = self.root
        for p in parts[:-1]:
            if node.kind != "d":
                raise err(errno.ENOTDIR, path)
            if p not in node.entries:
                raise err(errno.ENOENT, path)
            node = node.entries[p]
        if node.kind != "d":
            raise err(errno.ENOTDIR, path)
        return node, parts[-1]

    def _set(self, *changes):
        """changes: (dir inode, name, inode or None); one atomic name-space operation."""
        for d, name, node in changes:
            if node is None:
                d.entries.pop(name, None)
            else:
                d.entries[name] = node
            d.mtime = self.clock()
        self.pending.append(changes)

    # -- name space
    def mkdir(self, path):
        d, name = self.parent(path)
        if name in d.entries:
            raise err(errno.EEXIST, path)
        self._set((d, name, Inode("d", self.clock())))

    def makedirs(self, path):
        cur = self.rootpath
        for p in self.parts(path):
            cur += "/" + p
            try:
                self.mkdir(cur)
            except OSError as e:
                if e.errno != errno.EEXIST:
                    raise

    def unlink(self, path):
        d, name = self.parent(path)
        if name not in d.entries:
            raise err(errno.ENOENT, path)
        if d.entries[name].kind == "d":
            raise err(errno.EISDIR, path)
        self._set((d, name, None))

    def rmdir(self, path):
        d, name = self.parent(path)
        if name not in d.entries:
            raise err(errno.ENOENT, path)
        if d.entries[name].kind != "d":
            raise err(errno.ENOTDIR, path)
        if d.entries[name].entries:
            raise err(errno.ENOTEMPTY, path)
        self._set((d, name, None))

    def rename(self, src, dst):
        sd, sn = self.parent(src)
        dd, dn = self.parent(dst)
        if sn not in sd.entries:
            raise err(errno.ENOENT, src)
        node = sd.entries[sn]
        old = dd.entries.get(dn)
        if old is node:
            return
        if old is not None:
            if old.kind == "d" and node.kind != "d":
                raise err(errno.EISDIR, dst)
            if old.kind != "d" and node.kind == "d":
                raise err(errno.ENOTDIR, dst)
            if old.kind == "d" and old.entries:
                raise err(errno.ENOTEMPTY, dst)
        self._set((sd, sn, None), (dd, dn, node))

    def link(self, src, dst):
        node = self.lookup(src)
        d, name = self.parent(dst)
        if name in d.entries:
            raise err(errno.EEXIST, dst)
        self._set((d, name, node))

    def listdir(self, path):
        node = self.lookup(path)
        if node.kind != "d":
            raise err(errno.ENOTDIR, path)
        return list(node.entries)

    def stat(self, node):
        kind = _stat.S_IFDIR if node.kind == "d" else _stat.S_IFREG
        t = node.mtime
        return os.stat_result((kind | node.mode, node.ino, 77, node.nlink, os.getuid(), os.getgid(),
                               len(node.data), int(t), int(t), int(t)))

    # -- data
    def open(self, path, flags, mode=0o644, proc=None):
        try:
            node = self.lookup(path)
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, path)
        except OSError as e:
            if e.errno != errno.ENOENT or not flags & os.O_CREAT:
                raise
            d, name = self.parent(path)
            node = Inode("f", self.clock())
            node.mode = mode & 0o777
            self._set((d, name, node))
        if node.kind == "d" and flags & os.O_ACCMODE != os.O_RDONLY:
            raise err(errno.EISDIR, path)
        if not node.mode & 0o400:
            raise err(errno.EACCES, path)
        if flags & os.O_TRUNC and node.data:
            self.truncate(node, 0)
        of = OpenFile(node, path, flags, proc)
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = of
        return fd

    def truncate(self, node, size):
        if size < len(node.data):
            del node.data[size:]
        else:
            node.data.extend(b"\0" * (size - len(node.data)))
        node.ops.append(("trunc", size))
        node.mtime = self.clock()

    def write(self, of, data):
        if of.flags & os.O_APPEND:
            of.pos = len(of.inode.data)
        node, pos = of.inode, of.pos
        if pos > len(node.data):
            node.data.extend(b"\0" * (pos - len(node.data)))
        node.data[pos : pos + len(data)] = data
        node.ops.append(("write", pos, bytes(data)))
        node.mtime = self.clock()
        of.pos += len(data)
        return len(data)

    def fsync(self, node):
        node.durable = bytes(node.data)
        node.ops = []
        self.commit()

    def commit(self, upto=None):
        n = len(self.pending) if upto is None else upto
        for changes in self.pending[:n]:
            for d, name, node in changes:
                if node is None:
                    d.dentries.pop(name, None)
                else:
                    d.dentries[name] = node
        del self.pending[:n]

    def walk(self, node=None, prefix=None, durable=False):
        node = self.root if node is None else node
        prefix = self.rootpath if prefix is None else prefix
        for name, child in (node.dentries if durable else node.entries).items():
            p = prefix + "/" + name
            yield p, child
            if child.kind == "d":
                yield from self.walk(child, p, durable)

    def sync_all(self):
        """The kernel has flushed everything."""
        seen = []
        for _p, node in list(self.walk()):
            if node.kind == "f" and node.ops:
                node.durable = bytes(node.data)
                node.ops = []
                seen.append(node)
        self.commit()

    def power_loss(self, pick):
        """``pick(n, label)`` -> int in 0..n chosen by the simulator, n being the benign answer. Returns a short description."""
        k = pick(len(self.pending), "meta")
        lost_meta = len(self.pending) - k
        self.commit(k)
        self.pending = []
        lost_data = 0

        def revert(node):
            nonlocal lost_data
            node.entries = dict(node.dentries)
            for child in node.entries.values():
                if child.kind == "d":
                    revert(child)
                else:
                    n = len(child.ops)
                    j = pick(n, "data") if n else 0
                    data = bytearray(child.durable)
                    for i, op in enumerate(child.ops[:j]):
                        if op[0] == "trunc":
                            if op[1] < len(data):
                                del data[op[1]:]
                            else:
                                data.extend(b"\0" * (op[1] - len(data)))
                        else:
                            _, pos, b = op
                            if i == j - 1 and len(b) > 1:
                                t = 4 - pick(4, "torn")
                                if t == 1:
                                    b = b[: len(b) // 2]
                                    lost_data += 1
                                elif t == 2:
                                    b = b"\0" * len(b)  # size reached the disk, data did not
                                    lost_data += 1
                            if pos > len(data):
                                data.extend(b"\0" * (pos - len(data)))
                            data[pos : pos + len(b)] = b
                    lost_data += n - j
                    child.data = data
                    child.durable = bytes(data)
                    child.ops = []

        revert(self.root)
        self.fds = {}
        return lost_meta, lost_data

    # -- direct access for the controller
    def read_bytes(self, path):
        return bytes(self.lookup(path).data)

    def put(self, path, data):
        self.makedirs(os.path.dirname(path))
        d, name = self.parent(path)
        node = Inode("f", self.clock())
        node.data = bytearray(data)
        node.durable = bytes(data)
        d.entries[name] = node
        d.dentries[name] = node
        self.commit()

    def files(self):
        return sorted(p for p, n in self.walk() if n.kind == "f")
