"""Simulated shared file system, clocks and process identity.

Real files in a scratch directory hold the contents; every operation on a path
below it that a simulated rank performs goes through this module, where it is an
interception point of the scheduler (other ranks may run before it takes effect,
and a rank that is killed there never performs it) and where faults are injected.

Crash model: a process can die (SIGKILL) before any operation takes effect.  What
was passed to the kernel survives (page cache), what sits in a user-space buffer
does not.  A write larger than a page reaches the file in two pieces, so it can be
torn by a kill or seen half-done by another process; smaller writes are atomic.
numpy.save writes header and data of an array separately, as it does on a real file.
"""
from __future__ import annotations

import builtins
import errno
import io
import os
import shutil
import tempfile
import time
import timeit
import weakref

from . import core
from .core import SimKilled

PAGE = 4096
MUTATES = {"write", "write2", "truncate", "osopen", "mkdir", "remove", "unlink", "rmdir", "rename",
           "replace", "link", "symlink"}
_real = {}
ACTIVE = None  # the Disk the running simulation uses


class Disk:
    """faults: list of {"kind": "enospc"|"eio"|"short"|"eioread", "nth": k, "len": m}

    nth counts the raw writes (reads for eioread) of the run; enospc and eio last for
    `len` writes."""

    def __init__(self, faults=(), clock0=1.7e9, incarnation=0):
        self.faults = [dict(f) for f in faults]
        self.root = None
        self.nwrites = 0
        self.nreads = 0
        self.nmut = {}
        self.ops = {}
        self.raws = weakref.WeakSet()
        self.fds = {}
        self.names = {}
        self.clock0 = clock0
        self.ticks = 0
        self.jump = 0.0
        self.incarnation = incarnation
        self.watch = []  # callables (op, relpath, rank) after a mutation took effect

    # -- lifetime
    def mkroot(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="simdisk-"))
        return self.root

    def next_run(self, faults=(), incarnation=None):
        """A new set of processes on the same directory."""
        self.close()
        self.faults = [dict(f) for f in faults]
        self.nwrites = self.nreads = 0
        self.nmut = {}
        self.incarnation = self.incarnation + 1 if incarnation is None else incarnation

    def close(self):
        for r in list(self.raws):
            r.drop()
        for fd in list(self.fds):
            try:
                _real["close"](fd)
            except OSError:
                pass
        self.fds.clear()

    def remove(self):
        self.close()
        if self.root and os.path.basename(self.root).startswith("simdisk-"):
            shutil.rmtree(self.root, ignore_errors=True)

    # -- helpers
    def rel(self, path):
        return os.path.relpath(path, self.root)

    def label(self, path):
        return self.rel(path)

    def fault(self, kind, n):
        for f in self.faults:
            if f["kind"] == kind and f["nth"] <= n < f["nth"] + f.get("len", 1):
                return f
        return None

    def did(self, op, path, rank):
        for w in self.watch:
            w(op, self.rel(path), rank)

    def now(self):
        self.ticks += 1
        return self.clock0 + self.jump + 1e-3 * self.ticks


def _running():
    s = core.CURRENT
    if ACTIVE is None or s is None or s.current is None:
        return None
    return s


def _under(path):
    d = ACTIVE
    if d is None or d.root is None:
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    p = os.path.abspath(p)
    if p.endswith("/.numba_config.yaml"):
        return None     # looked up by numba while it holds its compiler lock
    return p if (p == d.root or p.startswith(d.root + os.sep)) else None


def point(op, path):
    """Interception point before a disk operation of the running rank."""
    sim = _running()
    rk = sim.ranks[sim.current]
    if rk.killed or sim.aborting:
        raise SimKilled()
    lab = f"disk:{op}:{ACTIVE.label(path)}"
    sim.count("disk ops")
    ACTIVE.ops[op] = ACTIVE.ops.get(op, 0) + 1
    sim.yield_point(lab)
    if op in MUTATES or op.startswith(("open-w", "open-a", "open-x")):
        k = ACTIVE.nmut[rk.r] = ACTIVE.nmut.get(rk.r, 0) + 1
        for f in sim.faults:
            if f["kind"] == "killdisk" and not f.get("done") and f["rank"] % sim.n == rk.r \
                    and k >= f["nth"]:
                # the process dies right before this operation takes effect
                f["done"] = True
                sim.fire("kill at disk operation")
                sim.emit("kill", rk.r, lab)
                sim.kill_rank(rk.r)
                sim.nodefail_at = sim.step + f.get("grace", 0)
                raise SimKilled()
    sim.emit("op", sim.current, lab)
    return sim


class SimRaw(io.RawIOBase):
    def __init__(self, fd, path, readable, writable, append, disk, sim):
        super().__init__()
        self._fd = fd
        self.name = path
        self._r, self._w, self._a = readable, writable, append
        self._disk = disk
        self._sim = sim
        self._owner = sim.ranks[sim.current]
        self._dead = False
        disk.raws.add(self)

    # identity of the calling context
    def _mode(self):
        """'run' = owner's own turn, 'gc' = collected elsewhere, 'dead' = no effect"""
        if self._dead or core.CURRENT is not self._sim or self._sim.current is None:
            return "dead"
        if self._owner.killed or self._sim.aborting:
            return "dead"
        return "run" if self._sim.current == self._owner.r and not self._owner.done else "gc"

    def drop(self):
        if not self._dead:
            self._dead = True
            try:
                _real["close"](self._fd)
            except OSError:
                pass

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    @property
    def mode(self):
        return ("rb+" if self._r else "wb") if self._w else "rb"

    def seek(self, off, whence=0):
        if self._mode() == "dead":
            raise SimKilled()
        return os.lseek(self._fd, off, whence)

    def tell(self):
        if self._mode() == "dead":
            raise SimKilled()
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if self._mode() == "dead":
            raise SimKilled()
        if self._mode() == "run":
            point("truncate", self.name)
        if size is None:
            size = self.tell()
        os.ftruncate(self._fd, size)
        self._disk.did("truncate", self.name, self._owner.r)
        return size

    def readinto(self, b):
        m = self._mode()
        if m == "dead":
            raise SimKilled()
        if m == "run":
            point("read", self.name)
            d = self._disk
            d.nreads += 1
            if d.fault("eioread", d.nreads):
                self._sim.fire("EIO on read")
                raise OSError(errno.EIO, os.strerror(errno.EIO), self.name)
        data = _real["read"](self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def readall(self):
        chunks = []
        while True:
            b = bytearray(1 << 16)
            n = self.readinto(b)
            if not n:
                return b"".join(chunks)
            chunks.append(bytes(b[:n]))

    def _put(self, data):
        n = 0
        while n < len(data):
            n += _real["write"](self._fd, data[n:])
        self._disk.did("write", self.name, self._owner.r)

    def write(self, b):
        m = self._mode()
        if m == "dead":
            if core.CURRENT is self._sim and self._sim.current is not None \
                    and self._sim.current == self._owner.r:
                raise SimKilled()
            return len(b)
        data = bytes(b)
        if m == "gc":
            self._put(data)
            return len(data)
        point("write", self.name)
        d = self._disk
        d.nwrites += 1
        pieces = None
        for kind, no in (("enospc", errno.ENOSPC), ("eio", errno.EIO)):
            if d.fault(kind, d.nwrites):
                self._sim.fire("ENOSPC on write" if kind == "enospc" else "EIO on write")
                part = (len(data) // PAGE) * PAGE
                if part and part < len(data) and self._sim.aux.random() < 0.5:
                    self._put(data[:part])
                raise OSError(no, os.strerror(no), self.name)
        if d.fault("short", d.nwrites) and len(data) > 1:
            self._sim.fire("short write")
            n = self._sim.aux.randrange(1, len(data))
            self._put(data[:n])
            return n
        if len(data) > 128 and data[:6] == b"\x93NUMPY":
            hl = 10 + int.from_bytes(data[8:10], "little")
            if hl < len(data):
                pieces = [data[:hl], data[hl:]]
        if pieces is None and len(data) > PAGE:
            cut = PAGE * self._sim.aux.randrange(1, (len(data) - 1) // PAGE + 1)
            pieces = [data[:cut], data[cut:]]
        if pieces is None:
            self._put(data)
        else:
            self._put(pieces[0])
            point("write2", self.name)
            self._put(pieces[1])
        return len(data)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.drop()


def _flags(mode):
    acc = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
           "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
           "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}
    c = [m for m in mode if m in "rwax"][0]
    fl = acc[c]
    if "+" in mode:
        fl = (fl & ~(os.O_RDONLY | os.O_WRONLY)) | os.O_RDWR
    return fl | os.O_CLOEXEC


def _wrap(raw, mode, buffering, encoding, errors, newline):
    binary = "b" in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else 8192
    if raw.readable() and raw.writable():
        buf = io.BufferedRandom(raw, size)
    elif raw.writable():
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    t.mode = mode
    return t


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
          closefd=True, opener=None):
    sim = _running()
    rd = "r" in mode or "+" in mode
    wr = any(c in mode for c in "wax") or "+" in mode
    if sim is not None and isinstance(file, int) and file in ACTIVE.fds:
        path = ACTIVE.fds.pop(file)
        raw = SimRaw(file, path, rd, wr, "a" in mode, ACTIVE, sim)
        return _wrap(raw, mode, buffering, encoding, errors, newline)
    p = _under(file) if sim is not None and not isinstance(file, int) else None
    if sim is not None and isinstance(file, str) and file.startswith(f"/proc/{_getpid()}/"):
        file = file.replace(str(_getpid()), "self", 1)
    if p is None:
        return _real["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if opener is not None:
        fd = opener(file, _flags(mode))
        path = ACTIVE.fds.pop(fd, p)
        raw = SimRaw(fd, path, rd, wr, "a" in mode, ACTIVE, sim)
        return _wrap(raw, mode, buffering, encoding, errors, newline)
    point("open-" + "".join(c for c in mode if c in "rwax+"), p)
    fd = _real["open"](p, _flags(mode), 0o666)
    raw = SimRaw(fd, p, rd, wr, "a" in mode, ACTIVE, sim)
    if wr:
        ACTIVE.did("open", p, sim.current)
    return _wrap(raw, mode, buffering, encoding, errors, newline)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = _under(path) if _running() is not None and dir_fd is None else None
    if p is None:
        return _real["open"](path, flags, mode, dir_fd=dir_fd)
    sim = point("osopen", p)
    fd = _real["open"](p, flags, mode)
    ACTIVE.fds[fd] = p
    if flags & (os.O_CREAT | os.O_TRUNC):
        ACTIVE.did("open", p, sim.current)
    return fd


def _os_write(fd, data):
    if _running() is None or fd not in ACTIVE.fds:
        return _real["write"](fd, data)
    sim = point("write", ACTIVE.fds[fd])
    ACTIVE.nwrites += 1
    for kind, no in (("enospc", errno.ENOSPC), ("eio", errno.EIO)):
        if ACTIVE.fault(kind, ACTIVE.nwrites):
            sim.fire("ENOSPC on write" if kind == "enospc" else "EIO on write")
            raise OSError(no, os.strerror(no))
    data = bytes(data)
    if ACTIVE.fault("short", ACTIVE.nwrites) and len(data) > 1:
        sim.fire("short write")
        data = data[:sim.aux.randrange(1, len(data))]
    return _real["write"](fd, data)


def _os_read(fd, n):
    if _running() is not None and fd in ACTIVE.fds:
        point("read", ACTIVE.fds[fd])
    return _real["read"](fd, n)


def _os_close(fd):
    if ACTIVE is not None:
        ACTIVE.fds.pop(fd, None)
    return _real["close"](fd)


def _os_fsync(fd):
    if not isinstance(fd, int):
        try:
            return _real["fsync"](fd)
        except io.UnsupportedOperation:
            return None
    return _real["fsync"](fd)


def _one(name, mutates):
    def f(path, *a, **k):
        p = _under(path) if _running() is not None and k.get("dir_fd") is None \
            and not isinstance(path, int) else None
        if p is None:
            return _real[name](path, *a, **k)
        sim = point(name, p)
        out = _real[name](p, *a, **k)
        if mutates:
            ACTIVE.did(name, p, sim.current)
        return out
    f.__name__ = name
    return f


def _two(name):
    def f(src, dst, *a, **k):
        p = (_under(src) or _under(dst)) if _running() is not None else None
        if p is None:
            return _real[name](src, dst, *a, **k)
        q = _under(dst) or os.fspath(dst)
        sim = point(name, p)
        out = _real[name](_under(src) or src, _under(dst) or dst, *a, **k)
        ACTIVE.did(name, q, sim.current)
        return out
    f.__name__ = name
    return f


def _listdir(path="."):
    p = _under(path) if _running() is not None and not isinstance(path, int) else None
    if p is None:
        return _real["listdir"](path)
    sim = point("listdir", p)
    out = sorted(_real["listdir"](p))
    sim.aux.shuffle(out)  # directory order is unspecified
    return out


def _scandir(path="."):
    p = _under(path) if _running() is not None and not isinstance(path, int) else None
    if p is not None:
        point("scandir", p)
    return _real["scandir"](path if p is None else p)


def _time():
    return ACTIVE.now() if _running() is not None else _real["time"]()


def _perf():
    # monotonic: no jumps
    if _running() is not None:
        ACTIVE.ticks += 1
        return 100.0 + 1e-3 * ACTIVE.ticks
    return _real["perf_counter"]()


def _getpid():
    s = _running()
    return 4000 + s.current if s is not None else _real["getpid"]()


def _getcwd():
    if _running() is not None and getattr(ACTIVE, "cwd", None):
        return ACTIVE.cwd
    return _real["getcwd"]()


def _urandom(n):
    s = _running()
    if s is None:
        return _real["urandom"](n)
    return bytes(s.aux.randrange(256) for _ in range(n))


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        s = _running()
        if s is None:
            return next(_real["names"])
        k = (ACTIVE.incarnation, s.current)
        ACTIVE.names[k] = ACTIVE.names.get(k, 0) + 1
        return f"r{s.current}i{ACTIVE.incarnation}n{ACTIVE.names[k]}"


def install():
    """Patch the process (idempotent); without an active Disk everything passes through."""
    if _real:
        return
    for n in ("open", "write", "read", "close", "fsync", "mkdir", "rename", "replace",
              "remove", "unlink", "rmdir", "stat", "lstat", "listdir", "scandir", "link",
              "symlink", "utime", "chmod", "truncate", "access", "getpid", "getcwd", "urandom"):
        _real[n] = getattr(os, n)
    _real["io.open"] = io.open
    _real["time"] = time.time
    _real["perf_counter"] = time.perf_counter
    _real["names"] = tempfile._RandomNameSequence()
    builtins.open = _open
    io.open = _open
    os.open, os.write, os.read, os.close = _os_open, _os_write, _os_read, _os_close
    os.fsync = _os_fsync
    os.listdir, os.scandir = _listdir, _scandir
    for n in ("mkdir", "remove", "unlink", "rmdir", "truncate"):
        setattr(os, n, _one(n, True))
    for n in ("stat", "lstat", "utime", "chmod", "access"):
        setattr(os, n, _one(n, False))
    for n in ("rename", "replace", "link", "symlink"):
        setattr(os, n, _two(n))
    os.getpid, os.getcwd, os.urandom = _getpid, _getcwd, _urandom
    time.time = _time
    timeit.default_timer = _perf
    time.perf_counter = _perf
    tempfile._get_candidate_names = lambda: _Names()
    try:      # numpy's text readers keep their own reference to io.open
        from numpy.lib import _datasource
        _datasource._file_openers._load()
        _datasource._file_openers._file_openers[None] = _open
    except (ImportError, AttributeError):
        pass


class use:
    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        global ACTIVE
        install()
        ACTIVE = self.disk
        return self.disk

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None
