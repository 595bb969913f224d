"""Simulated disk: faults, crashes and power loss under a scratch directory.

Real files hold the cached content; every operation on a path below `root`
is a seam point.  A crash loses what still sits in user-space buffers, a power
loss also what was not fsynced (metadata operations are ordered and durable,
as on a journalling file system; file data is durable only after fsync).
"""
import builtins
import errno
import io
import os
import shutil

from core import SimCrash, ctx

R = {}


class Disk:
    def __init__(self, c, root):
        self.c = c
        self.root = os.path.realpath(root)
        self.dead = False
        self.capacity = None          # bytes left on the device
        self.durable = {}             # inode -> synced bytes
        self.dirty = {}               # inode -> path last used
        self.fds = {}                 # tracked raw descriptors
        self.ops = 0
        self.power = False
        self.failed_writes = 0
        self.objs = []                # open files of the dying process
        self.names = None             # names worth telling apart in the log

    def owns(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def is_dead(self, raw):
        return self.dead

    def kill(self, power):
        self.dead = True
        self.power = power
        raise SimCrash("simulated crash")

    def step(self, kind, path):
        """one I/O operation; returns the planned fault or None"""
        if self.dead:
            raise SimCrash("process is dead")
        self.ops += 1
        name = os.path.basename(str(path))
        self.c.log("io", kind, name if self.names is None
                   or name in self.names else "other")
        f = self.c.point("io:" + kind)
        g = self.c.point("io")
        return f or g

    def fault(self, f, kind):
        do = f["do"]
        if do in ("crash", "power"):
            self.c.fire(f"{do}@{kind}")
            self.kill(do == "power")
        if do == "eio":
            self.c.fire(f"eio@{kind}")
            raise OSError(errno.EIO, "simulated I/O error")
        if do == "enospc":
            self.c.fire(f"enospc@{kind}")
            raise OSError(errno.ENOSPC, "simulated full disk")
        if do == "eacces":
            self.c.fire(f"eacces@{kind}")
            raise PermissionError(errno.EACCES, "simulated")
        if do == "interrupt":
            from core import SimInterrupt
            self.c.fire(f"interrupt@{kind}")
            raise SimInterrupt("injected")

    # -- data ---------------------------------------------------------------
    def write(self, fd, b, path):
        b = bytes(b)
        f = self.step("write", path)
        n = len(b)
        crash = None
        if f:
            do = f["do"]
            if do in ("short", "crash", "power", "eio", "enospc"):
                n = int(n * float(f.get("frac", 0.5)))
            if do == "short":
                n = max(1, n)
                if n < len(b):
                    self.c.fire("short-write")
            elif do == "full":
                self.c.fire("disk-full-from-here")
                self.capacity = int(f.get("bytes", 0))
            else:
                crash = f
        if self.capacity is not None:
            if self.capacity <= 0 and len(b):
                self.failed_writes += 1
                self.c.fired["enospc@write"] += 1
                raise OSError(errno.ENOSPC, "simulated full disk")
            n = min(n, self.capacity)
            self.capacity -= n
        if n:
            os_write = R["write"]
            done = 0
            while done < n:
                done += os_write(fd, b[done:n])
        ino = os.fstat(fd).st_ino
        self.dirty[ino] = path
        if crash:
            if crash["do"] in ("eio", "enospc"):
                self.failed_writes += 1
            self.fault(crash, "write")
        return n

    def fsync(self, fd):
        path = self.fds.get(fd, "?")
        f = self.step("fsync", path)
        if f:
            self.fault(f, "fsync")
        ino = os.fstat(fd).st_ino
        with R["open"](f"/proc/self/fd/{fd}", "rb") as fh:
            self.durable[ino] = fh.read()
        self.dirty.pop(ino, None)

    def created(self, fd, path, trunc):
        ino = os.fstat(fd).st_ino
        self.fds[fd] = path
        if trunc:
            self.durable[ino] = b""
            self.dirty.pop(ino, None)

    def power_loss(self):
        """what the machine finds after the power came back"""
        lost = 0
        for base, _, names in os.walk(self.root):
            for nme in sorted(names):
                p = os.path.join(base, nme)
                ino = os.stat(p).st_ino
                if ino not in self.dirty:
                    continue
                with R["open"](p, "rb") as fh:
                    cur = fh.read()
                old = self.durable.get(ino, b"")
                how = self.c.prng.choice(["old", "prefix", "empty"])
                if how == "old":
                    new = old
                elif how == "prefix":
                    new = cur[:self.c.prng.randrange(0, max(1, len(cur)))]
                else:
                    new = b""
                if new != cur:
                    lost += 1
                    with R["open"](p, "wb") as fh:
                        fh.write(new)
        if lost:
            self.c.fired["unsynced-data-lost"] += lost


class SimRaw(io.RawIOBase):
    def __init__(self, disk, fd, path, readable, writable):
        super().__init__()
        self.disk = disk
        self.fd = fd
        self.path = path
        self._r = readable
        self._w = writable
        self.name = path
        self.mode = "rb+" if readable and writable else \
            ("wb" if writable else "rb")
        disk.objs.append(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def readinto(self, b):
        d = os.read(self.fd, len(b))
        b[:len(d)] = d
        return len(d)

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self.fd, size)
        return size

    def write(self, b):
        if self.disk.is_dead(self):
            return len(b)           # buffers of a dead process go nowhere
        return self.disk.write(self.fd, b, self.path)

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            fd, self.fd = self.fd, -1
            self.disk.fds.pop(fd, None)
            if fd >= 0:
                R["close"](fd)
        if not self.disk.is_dead(self):
            f = self.disk.step("close", self.path)
            if f and self._w:
                self.disk.fault(f, "close")


def _cur():
    c = ctx()
    if c is None or c.disk is None or not c.enabled:
        return None
    return c.disk


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    d = _cur()
    if d is None or not d.owns(file) or not any(
            ch in mode for ch in "wax+"):
        if d is not None and d.owns(file) and d.dead:
            raise SimCrash("process is dead")
        return R["open"](file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    binary = "b" in mode
    if isinstance(file, int):
        fd, path = file, d.fds.get(file, str(file))
    else:
        path = os.path.realpath(os.fspath(file))
        f = d.step("open", path)
        if f:
            d.fault(f, "open")
        flags = os.O_CLOEXEC
        base = mode.replace("b", "").replace("t", "")
        plus = "+" in base
        k = base.replace("+", "")
        flags |= os.O_RDWR if plus else os.O_WRONLY
        if k == "w":
            flags |= os.O_CREAT | os.O_TRUNC
        elif k == "a":
            flags |= os.O_CREAT | os.O_APPEND
        elif k == "x":
            flags |= os.O_CREAT | os.O_EXCL
        fd = R["os.open"](path, flags, 0o666)
        d.created(fd, path, k in ("w", "x"))
    raw = SimRaw(d, fd, path, "+" in mode or "r" in mode, True)
    if buffering == 0:
        return raw
    size = d.c.opt.get("bufsize", 8192) if buffering in (-1, 1) else buffering
    buf = io.BufferedRandom(raw, size) if "+" in mode else \
        io.BufferedWriter(raw, size)
    if binary:
        return buf
    return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


def _path_op(name, nargs):
    orig = getattr(os, name)
    R[name] = orig

    def op(*a, **k):
        d = _cur()
        if d is None or not any(isinstance(p, (str, bytes, os.PathLike))
                                and d.owns(p) for p in a[:nargs]):
            return orig(*a, **k)
        f = d.step(name, a[0])
        if f:
            d.fault(f, name)
        return orig(*a, **k)
    op.__name__ = name
    setattr(os, name, op)


def install():
    R["open"] = builtins.open
    R["write"] = os.write
    R["close"] = os.close
    R["os.open"] = os.open
    R["fsync"] = os.fsync
    builtins.open = sim_open
    io.open = sim_open
    for n in ("replace", "rename", "link", "symlink"):
        _path_op(n, 2)
    for n in ("unlink", "remove", "truncate", "mkdir"):
        _path_op(n, 1)

    def os_open(path, flags, *a, **k):
        d = _cur()
        if d is None or not d.owns(path):
            return R["os.open"](path, flags, *a, **k)
        w = flags & (os.O_WRONLY | os.O_RDWR)
        if w:
            f = d.step("open", path)
            if f:
                d.fault(f, "open")
        fd = R["os.open"](path, flags, *a, **k)
        d.created(fd, os.path.realpath(os.fspath(path)),
                  bool(w) and bool(flags & (os.O_TRUNC | os.O_EXCL)))
        return fd

    def os_write(fd, b):
        d = _cur()
        if d is None or fd not in d.fds:
            return R["write"](fd, b)
        if d.dead:
            return len(b)
        return d.write(fd, b, d.fds[fd])

    def os_close(fd):
        d = _cur()
        if d is not None and fd in d.fds:
            d.fds.pop(fd, None)
        return R["close"](fd)

    def os_fsync(fd):
        d = _cur()
        if not isinstance(fd, int):
            fd = fd.fileno()
        if d is None or fd not in d.fds:
            if d is not None:
                return None
            return R["fsync"](fd)
        return d.fsync(fd)
    os.open, os.write, os.close = os_open, os_write, os_close
    os.fsync = os_fsync
    os.fdatasync = os_fsync
    shutil._USE_CP_SENDFILE = False
