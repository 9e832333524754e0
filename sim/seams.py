"""Everything nondeterministic or failing, replaced by something the plan owns.

install() is called once per worker, before the package under study or any of
its users has been imported.  Outside a running simulation every replacement
falls through to the original.
"""

import _thread
import builtins
import collections
import datetime as _dt
import errno
import functools
import getpass
import hashlib
import http.client
import io
import os
import random as _random
import stat
import sys
import time

from . import image, kernel

REAL_OPEN = io.open
REAL_URANDOM = os.urandom
REAL_UNLINK = os.unlink
REAL_CHMOD = os.chmod
REAL_TRUNCATE = os.truncate
ROOT = None  # scratch root of this worker
REALWORLD = {}


def cur_proc():
    s = kernel.SIM
    if s is None or s.cur is None:
        return None
    return s.cur.proc


def simulating():
    s = kernel.SIM
    return s is not None and s.cur is not None


# ---------------------------------------------------------------------------
# faults


class Injected(OSError):
    pass


def oserr(no):
    return OSError(no, os.strerror(no))


def act(sim, proc, f, kind, target, phase):
    """Carry out the part of fault `f` that belongs to `phase` of an event."""
    if f is None:
        return
    when = f.get("when", "before")
    if when != phase:
        return
    do = f["do"]
    if do == "err":
        no = f.get("errno", errno.EIO)
        if f.get("sticky"):
            proc.sticky[target] = no
        sim.fire(proc, f, "%s:%s" % (kind, errno.errorcode.get(no, no)))
        raise oserr(no)
    if do == "alloc":
        sim.fire(proc, f, "%s:alloc" % kind)
        raise MemoryError()
    if do == "int":
        sim.fire(proc, f, "%s:interrupt-%s" % (kind, phase))
        if phase == "after" and kind in ("write", "read"):
            # the system call is done; the handler runs a little later
            proc.pending_int = True
            return
        raise KeyboardInterrupt()
    if do == "eof":
        sim.fire(proc, f, "%s:eof" % kind)
        raise EOFError()
    if do == "kill":
        sim.fire(proc, f, "%s:kill-%s" % (kind, phase))
        sim.kill(proc)
    if do == "world":
        if not f.get("_done"):
            f["_done"] = True
            sim.fire(proc, f, "world:%s" % f["op"])
            world_op(sim, f)


def world_op(sim, f):
    """Something else on the machine touches a file at this instant."""
    path = os.path.join(sim.root, f["path"])
    try:
        if f["op"] == "unlink":
            REAL_UNLINK(path)
        elif f["op"] == "chmod0":
            REAL_CHMOD(path, 0)
        elif f["op"] == "replace":
            with REAL_OPEN(path, "wb") as fh:
                fh.write(bytes.fromhex(f["data"]))
        elif f["op"] == "truncate":
            REAL_TRUNCATE(path, f["size"])
    except OSError:
        pass


def do_write(proc, target, data, sink):
    """One write(2): consults the plan, passes accepted bytes to sink()."""
    sim = proc.sim
    n = len(data)
    if sim.wrote is not None:
        store = sink

        def sink(d):
            rec = sim.wrote.setdefault(target, bytearray())
            if len(rec) < 200000:
                rec += d
            return store(d)

    f = sim.event(proc, "write", target, n)
    if target in proc.sticky:
        raise oserr(proc.sticky[target])
    if f is not None:
        act(sim, proc, f, "write", target, "before")
        do = f["do"]
        if do in ("torn", "short") or f.get("when") == "mid":
            part = int(n * f.get("frac", 0.5))
            if f.get("chunk"):
                part = chunk_cut(data, f["chunk"])
            if do == "short" and target in ("stdout", "sink") and f.get("full"):
                # a descriptor in non-blocking mode whose reader is slow, or one that takes nothing
                sim.fire(proc, f, "write:" + f["full"])
                return None if f["full"] == "none" else 0
            if do == "short":
                part = max(1, min(part, n)) if n else 0
                sim.fire(proc, f, "write:short")
                sink(data[:part])
                return part
            part = min(part, n)
            if do == "kill":
                sink(data[:part])
                sim.fire(proc, f, "write:torn-kill")
                sim.kill(proc)
            # the device accepts a part and refuses everything after it
            no = f.get("errno", errno.ENOSPC)
            sim.fire(proc, f, "write:torn-%s" % errno.errorcode.get(no, no))
            proc.sticky[target] = no
            if part == 0:
                raise oserr(no)
            sink(data[:part])
            return part
    m = n if target == "stderr" else proc.writecap(n)
    sink(data[:m])
    if f is not None:
        act(sim, proc, f, "write", target, "after")
    return m


def taken(n):
    """Result of os.write, which raises where raw streams return None."""
    if n is None:
        raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
    return n


def chunk_cut(data, k):
    """Where the kth chunk of an age file ends in this write, or the last that does."""
    off = 0
    if data.startswith(b"age-encryption.org"):
        i = data.find(b"\n--- ")
        off = data.find(b"\n", i + 1) + 1 + 16 if i >= 0 else 0
    k = min(k, (len(data) - off) // 65552)
    return max(0, min(len(data), off + k * 65552))


def do_read(proc, target, n, source):
    """One read(2) of at most n bytes."""
    sim = proc.sim
    f = sim.event(proc, "read", target, n if n is not None else -1)
    if f is not None:
        act(sim, proc, f, "read", target, "before")
        if f["do"] in ("short", "torn"):
            sim.fire(proc, f, "read:short")
            n = max(1, min(n, 1 + int(n * f.get("frac", 0.01))))
    m = proc.readcap(n)
    data = source(m)
    if f is not None:
        act(sim, proc, f, "read", target, "after")
    return data


def do_close(proc, target):
    sim = proc.sim
    f = sim.event(proc, "close", target)
    return f


def simple_event(kind, target="", size=0):
    """Event with error/kill/interrupt faults only; used by passive seams."""
    s = kernel.SIM
    p = s.cur.proc
    f = s.event(p, kind, target, size)
    if f is not None:
        act(s, p, f, kind, target, "before")
    return p, f


# ---------------------------------------------------------------------------
# files


def _raw_mode(mode):
    return mode.replace("t", "").replace("U", "")


class SimFileIO(io.FileIO):
    """A real file in the scratch directory with every call an event."""

    def __init__(self, proc, path, mode, target, opener=None, closefd=True):
        self._proc = proc
        self._target = target
        self._dead = False
        io.FileIO.__init__(self, path, mode, closefd=closefd, opener=opener)
        proc.fdnames[self.fileno()] = target
        if isinstance(path, int):
            return
        # a descriptor that an opener made is this object's now
        proc.osfds.pop(self.fileno(), None)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        return do_read(self._proc, self._target, n, lambda m: io.FileIO.read(self, m))

    def readinto(self, b):
        mv = memoryview(b).cast("B")
        data = do_read(self._proc, self._target, len(mv), lambda m: io.FileIO.read(self, m))
        mv[: len(data)] = data
        return len(data)

    def readall(self):
        out = []
        while True:
            d = self.read(65536)
            if not d:
                break
            out.append(d)
        return b"".join(out)

    def write(self, b):
        data = bytes(b)
        if self.closed:
            raise ValueError("write to closed file")
        return do_write(self._proc, self._target, data, lambda d: io.FileIO.write(self, d))

    def close(self):
        if self.closed:
            return
        if not self._proc.alive or not simulating() or not self.closefd:
            io.FileIO.close(self)
            return
        try:
            f = do_close(self._proc, self._target)
            act(self._proc.sim, self._proc, f, "close", self._target, "before")
        finally:
            io.FileIO.close(self)
        act(self._proc.sim, self._proc, f, "close", self._target, "after")


def rel(sim, path):
    return os.path.relpath(path, sim.root) if sim.root else path


def _inside(path):
    return ROOT is not None and (path == ROOT or path.startswith(ROOT + os.sep))


def _elsewhere(path, writing):
    """Files outside of the scratch directory: what is written goes to a shadow."""
    if path == os.devnull or _inside(path) or path.startswith(("/dev/", "/proc/", "/sys/")):
        return path
    shadow = os.path.join(ROOT, "r", ".outside") + path
    if writing:
        os.makedirs(os.path.dirname(shadow), exist_ok=True)
        return shadow
    return shadow if os.path.isfile(shadow) else path


def sim_open(
    file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None
):
    p = cur_proc()
    if p is None:
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        raw = _fd_raw(p, file, mode, closefd)
        if raw is None:
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        return _layers(p.sim, raw, mode, buffering, encoding, errors, newline)
    path = os.path.abspath(os.fsdecode(os.fspath(file)))
    if path in ("/dev/urandom", "/dev/random"):
        return _layers(p.sim, _Urandom(), mode, buffering, encoding, errors, newline)
    path = _elsewhere(path, any(c in mode for c in "wax+"))
    if not _inside(path):
        if path != os.devnull and any(c in mode for c in "wax+"):
            # containment: nothing outside the scratch directory is writable
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    sim = p.sim
    target = rel(sim, path)
    f = sim.event(p, "open", target + ":" + mode)
    act(sim, p, f, "open", target, "before")
    if path in sim.world.get("unreadable", ()) and not any(c in mode for c in "wax"):
        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), str(file))
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    if opener is None:
        _wait_fifo(sim, path, rawmode)
    raw = SimFileIO(p, path, rawmode, target, opener=opener)
    try:
        act(sim, p, f, "open", target, "after")
        return _layers(sim, raw, mode, buffering, encoding, errors, newline)
    except BaseException:
        io.FileIO.close(raw)
        raise


def _layers(sim, raw, mode, buffering, encoding, errors, newline):
    """The buffered and text layers that open() puts on a raw file."""
    binary = "b" in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else (sim.bufsize or 8192)
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif "r" in mode:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(
        buf, encoding or "utf-8", errors, newline, buffering == 1 or (buffering < 0 and raw.isatty())
    )
    text.mode = mode
    return text


# -- descriptors: what the package may do below io.open -----------------------

REAL_OSOPEN = os.open
REAL_OSREAD = os.read
REAL_OSWRITE = os.write
REAL_OSCLOSE = os.close
REAL_OSDUP = os.dup


class _Urandom(io.RawIOBase):
    """/dev/urandom"""

    name = "/dev/urandom"

    def readable(self):
        return True

    def readinto(self, b):
        mv = memoryview(b).cast("B")
        mv[:] = draw(len(mv))
        return len(mv)


class _FdView(io.RawIOBase):
    """Another file object on a standard descriptor of the process."""

    def __init__(self, raw, mode, closefd, dup=None):
        self._raw = raw
        self._dup = dup
        self._closefd = closefd
        self._r = "r" in mode or "+" in mode
        self._w = "r" not in mode or "+" in mode

    name = property(lambda self: self._raw.fileno())

    def readable(self):
        return self._r and self._raw.readable()

    def writable(self):
        return self._w and self._raw.writable()

    def isatty(self):
        return self._raw.isatty()

    def fileno(self):
        return self._raw.fileno()

    def readinto(self, b):
        mv = memoryview(b).cast("B")
        d = self._raw.read(len(mv))
        mv[: len(d)] = d
        return len(d)

    def write(self, b):
        if self.closed:
            raise ValueError("write to closed file")
        return self._raw.write(b)

    def close(self):
        if not self.closed:
            try:
                if self._dup is not None:
                    if self._closefd:
                        sim_os_close(self._dup)
                elif self._closefd:
                    self._raw.close()
            finally:
                io.RawIOBase.close(self)


def _std(p, fd):
    """The raw standard stream that descriptor `fd` of process `p` means."""
    if fd in p.dups:
        return p.dups[fd]
    for i, raw in enumerate((p.rawin, p.rawout, p.rawerr)):
        if fd == i:
            if raw.closed:
                raise oserr(errno.EBADF)
            return raw
        try:
            if not raw.closed and raw.fileno() == fd:
                return raw
        except OSError:
            pass
    return None


def _wait_fifo(sim, path, writing):
    """Opening one end of a named pipe waits for the other, which nobody opens."""
    try:
        if stat.S_ISFIFO(os.stat(path).st_mode):
            sim.block(lambda: False)
    except OSError:
        pass


def _fd_raw(p, fd, mode, closefd):
    raw = _std(p, fd)
    if raw is not None:
        return _FdView(raw, mode, closefd, fd if fd in p.dups else None)
    if fd in p.osfds:
        target = p.osfds[fd]
        if closefd:
            del p.osfds[fd]
        rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
        return SimFileIO(p, fd, rawmode, target, closefd=closefd)
    return None


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = cur_proc()
    if p is None or dir_fd is not None:
        return REAL_OSOPEN(path, flags, mode, dir_fd=dir_fd)
    full = os.path.abspath(os.fsdecode(os.fspath(path)))
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    full = _elsewhere(full, writing)
    if _inside(full):
        path = full
    else:
        if writing and full != os.devnull:
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), full)
        return REAL_OSOPEN(path, flags, mode)
    sim = p.sim
    target = rel(sim, full)
    f = sim.event(p, "open", target + (":fdw" if writing else ":fdr"))
    act(sim, p, f, "open", target, "before")
    if full in sim.world.get("unreadable", ()) and not flags & os.O_WRONLY:
        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), str(path))
    if not flags & os.O_NONBLOCK:
        _wait_fifo(sim, full, writing)
    fd = REAL_OSOPEN(path, flags, mode)
    p.osfds[fd] = p.fdnames[fd] = target
    act(sim, p, f, "open", target, "after")
    return fd


def sim_os_read(fd, n):
    p = cur_proc()
    if p is not None:
        raw = _std(p, fd)
        if raw is not None:
            return raw.read(n)
        if fd in p.osfds:
            return do_read(p, p.osfds[fd], n, lambda m: REAL_OSREAD(fd, m))
    return REAL_OSREAD(fd, n)


def sim_os_write(fd, data):
    p = cur_proc()
    if p is not None:
        raw = _std(p, fd)
        if raw is not None:
            return taken(raw.write(data))
        if fd in p.osfds:
            return taken(do_write(p, p.osfds[fd], bytes(data), lambda d: REAL_OSWRITE(fd, d)))
    return REAL_OSWRITE(fd, data)


def sim_os_dup(fd):
    p = cur_proc()
    if p is not None:
        raw = _std(p, fd)
        new = REAL_OSDUP(fd if raw is None or fd > 2 else raw.fileno())
        if raw is not None:
            p.dups[new] = raw
        elif fd in p.osfds:
            p.osfds[new] = p.fdnames[new] = p.osfds[fd]
        return new
    return REAL_OSDUP(fd)


def sim_os_close(fd):
    p = cur_proc()
    if p is not None:
        if fd in p.dups:
            del p.dups[fd]
            return REAL_OSCLOSE(fd)
        raw = _std(p, fd)
        if raw is not None:
            return raw.close()
        if fd in p.osfds:
            target = p.osfds.pop(fd)
            f = do_close(p, target)
            try:
                act(p.sim, p, f, "close", target, "before")
            finally:
                REAL_OSCLOSE(fd)
            act(p.sim, p, f, "close", target, "after")
            return None
    return REAL_OSCLOSE(fd)


def _make_sync(orig):
    @functools.wraps(orig)
    def sync(fd):
        p = cur_proc()
        if p is None:
            return orig(fd)
        n = fd if isinstance(fd, int) else fd.fileno()
        raw = _std(p, n)
        target = raw._target if isinstance(raw, SimFileIO) else p.fdnames.get(n, str(n))
        f = p.sim.event(p, "fsync", target)
        act(p.sim, p, f, "fsync", target, "before")
        if raw is not None and not isinstance(raw, SimFileIO):
            raise oserr(errno.EINVAL)  # pipes and terminals cannot be synchronised
        act(p.sim, p, f, "fsync", target, "after")

    return sync


def _make_isatty(orig):
    @functools.wraps(orig)
    def isatty(fd):
        p = cur_proc()
        if p is not None and isinstance(fd, int):
            raw = _std(p, fd)
            if raw is not None:
                return raw.isatty()
        return orig(fd)

    return isatty


def _make_pathop(orig, kind, npaths):
    """rename, unlink and so on: events on scratch files, refused elsewhere."""

    @functools.wraps(orig)
    def op(*a, **k):
        p = cur_proc()
        if p is None:
            return orig(*a, **k)
        paths = []
        for x in a[:npaths]:
            x = _dirpath(x)
            if x is None:
                return orig(*a, **k)
            paths.append(x)
        for d in ("dir_fd", "src_dir_fd", "dst_dir_fd"):
            if k.get(d) is not None:
                paths = [os.path.join(os.readlink("/proc/self/fd/%d" % k[d]), a[0])]
        for x in paths if kind != "symlink" else paths[1:]:
            if not _inside(x):
                raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), x)
        target = "->".join(rel(p.sim, x) for x in paths)
        f = p.sim.event(p, kind, target)
        act(p.sim, p, f, kind, target, "before")
        r = orig(*a, **k)
        if kind == "rename" and p.sim.wrote is not None:
            src, dst = (rel(p.sim, x) for x in paths)
            if src in p.sim.wrote:
                p.sim.wrote[dst] = p.sim.wrote.pop(src)
        act(p.sim, p, f, kind, target, "after")
        return r

    return op


def _patch_os():
    import shutil
    import signal
    import tempfile

    os.open = sim_os_open
    os.read = sim_os_read
    os.write = sim_os_write
    os.close = sim_os_close
    os.dup = sim_os_dup
    os.fsync = _make_sync(os.fsync)
    os.fdatasync = _make_sync(os.fdatasync)
    os.isatty = _make_isatty(os.isatty)
    for name, kind, n in (
        ("rename", "rename", 2),
        ("replace", "rename", 2),
        ("link", "rename", 2),
        ("symlink", "symlink", 2),
        ("unlink", "unlink", 1),
        ("remove", "unlink", 1),
        ("rmdir", "unlink", 1),
        ("mkdir", "mkdir", 1),
        ("truncate", "truncate", 1),
        ("chmod", "chmod", 1),
    ):
        setattr(os, name, _make_pathop(getattr(os, name), kind, n))
    shutil._USE_CP_SENDFILE = False
    tempfile.tempdir = os.path.join(ROOT, "r", ".tmp")
    tempfile._RandomNameSequence.rng = property(lambda self: _random._inst)
    orig_signal = signal.signal

    def sim_signal(num, handler):
        if not simulating():
            return orig_signal(num, handler)
        return signal.getsignal(num)

    signal.signal = sim_signal


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def _dirorder(sim, path, names, key):
    r = _random.Random("dir:%s:%s" % (sim.dirseed, rel(sim, path)))
    names = sorted(names, key=key)
    r.shuffle(names)
    return names


def _dirpath(path):
    if isinstance(path, int):
        return None
    try:
        return os.path.abspath(os.fsdecode(os.fspath(path)))
    except TypeError:
        return None


def _make_scandir(orig):
    @functools.wraps(orig)
    def scandir(path="."):
        p = cur_proc()
        ap = _dirpath(path) if p is not None else None
        if ap is None or not _inside(ap):
            return orig(path)
        simple_event("scandir", rel(p.sim, ap))
        with orig(path) as it:
            entries = list(it)
        return _Scan(_dirorder(p.sim, ap, entries, lambda e: e.name))

    return scandir


def _make_listdir(orig):
    @functools.wraps(orig)
    def listdir(path="."):
        p = cur_proc()
        ap = _dirpath(path) if p is not None else None
        if ap is None or not _inside(ap):
            return orig(path)
        simple_event("scandir", rel(p.sim, ap))
        return _dirorder(p.sim, ap, orig(path), str)

    return listdir


# ---------------------------------------------------------------------------
# in-memory devices: standard streams, pipes, library sinks and sources


class Dev:
    """What a simulated device has accepted."""

    def __init__(self, name, data=b""):
        self.name = name
        self.data = bytearray(data)


class Pipe:
    def __init__(self, name, cap):
        self.name = name
        self.cap = cap
        self.buf = bytearray()
        self.writers = 0
        self.readers = 0
        self.total = bytearray()


class SimIn(io.RawIOBase):
    """Raw input: bytes of a device, or the read end of a pipe."""

    def __init__(self, proc, name, data=b"", pipe=None, tty=False, fd=None):
        self._proc = proc
        self._name = name
        self._data = data
        self._pos = 0
        self._pipe = pipe
        self._tty = tty
        self._fd = fd
        if pipe is not None:
            pipe.readers += 1

    name = property(lambda self: "<%s>" % self._name)
    mode = "rb"

    def readable(self):
        return True

    def isatty(self):
        return self._tty

    def fileno(self):
        if self._fd is None:
            raise io.UnsupportedOperation("fileno")
        return self._fd

    def _src(self, n):
        if self._pipe is not None:
            p = self._pipe
            if not p.buf and p.writers:
                self._proc.sim.block(lambda: bool(p.buf) or not p.writers)
            d = bytes(p.buf[:n])
            del p.buf[:n]
            return d
        d = self._data[self._pos : self._pos + n]
        self._pos += len(d)
        return bytes(d)

    def readinto(self, b):
        if self.closed:
            raise ValueError("read of closed file")
        mv = memoryview(b).cast("B")
        d = do_read(self._proc, self._name, len(mv), self._src)
        mv[: len(d)] = d
        return len(d)

    def readall(self):
        out = []
        while True:
            d = self.read(65536)
            if not d:
                break
            out.append(d)
        return b"".join(out)

    def close(self):
        if not self.closed:
            io.RawIOBase.close(self)
            if self._pipe is not None:
                self._pipe.readers -= 1


class SimOut(io.RawIOBase):
    """Raw output: a device, a terminal, or the write end of a pipe."""

    def __init__(self, proc, name, dev=None, pipe=None, tty=False, fd=None):
        self._proc = proc
        self._name = name
        self._dev = dev
        self._pipe = pipe
        self._tty = tty
        self._fd = fd
        if pipe is not None:
            pipe.writers += 1

    name = property(lambda self: "<%s>" % self._name)
    mode = "wb"

    def writable(self):
        return True

    def isatty(self):
        return self._tty

    def fileno(self):
        if self._fd is None:
            raise io.UnsupportedOperation("fileno")
        return self._fd

    def _sink(self, data):
        if self._pipe is None:
            self._dev.data += data
            return
        p = self._pipe
        sim = self._proc.sim
        view = memoryview(data)
        while len(view):
            if not p.readers:
                raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE))
            room = p.cap - len(p.buf)
            if room <= 0:
                sim.block(lambda: len(p.buf) < p.cap or not p.readers)
                continue
            p.buf += view[:room]
            p.total += view[:room]
            view = view[room:]

    def write(self, b):
        if self.closed:
            raise ValueError("write to closed file")
        return do_write(self._proc, self._name, bytes(b), self._sink)

    def close(self):
        if self.closed:
            return
        io.RawIOBase.close(self)
        if self._pipe is not None:
            self._pipe.writers -= 1
        if self._proc.alive and simulating():
            f = do_close(self._proc, self._name)
            act(self._proc.sim, self._proc, f, "close", self._name, "before")


# ---------------------------------------------------------------------------
# entropy


def draw(n):
    s = kernel.SIM
    p, _ = simple_event("entropy", "", n)
    if "" in p.sticky:
        raise oserr(p.sticky[""])
    out = s.entropy.randbytes(n) if not s.narrow else narrow(s, n)
    s.drawn.append(out)
    return out


def narrow(s, n):
    """Random bytes that all have most bytes in common, yet never repeat.

    Whoever uses only some of the bytes of a draw gets the same value twice.
    Each aligned block of 16 bytes differs from all others in four bytes, in
    bits that key clamping leaves alone.
    """
    base = hashlib.sha256(b"base %d" % s.narrow).digest()
    out = bytearray()
    for i in range(0, n, 16):
        b = bytearray((base * (n // 32 + 2))[i : i + min(16, n - i)])
        c = s.narrowcount
        s.narrowcount += 1
        for k in range(4):
            j = (s.narrow * 7 + k) % len(b)
            b[j] = (b[j] & ~0x38) | ((c >> 3 * k) & 7) << 3
        out += b
    return bytes(out)


def sim_urandom(n):
    if not simulating():
        return REAL_URANDOM(n)
    return draw(n)


def _patch_entropy():
    os.urandom = sim_urandom
    _random._urandom = sim_urandom
    if hasattr(os, "getrandom"):
        orig_getrandom = os.getrandom

        def getrandom(size, flags=0):
            if not simulating():
                return orig_getrandom(size, flags)
            return draw(size)

        os.getrandom = getrandom

    from cryptography.hazmat.primitives.asymmetric import ed25519, x25519

    for cls in (x25519.X25519PrivateKey, ed25519.Ed25519PrivateKey):

        def make(cls, orig):
            def generate(klass):
                if not simulating():
                    return orig()
                return cls.from_private_bytes(draw(32))

            return classmethod(generate)

        cls.generate = make(cls, cls.generate)

    import nacl.bindings
    rb = sys.modules["nacl.bindings.randombytes"]
    import nacl.utils

    orig_rb = rb.randombytes

    def randombytes(size):
        if not simulating():
            return orig_rb(size)
        return draw(size)

    rb.randombytes = randombytes
    nacl.bindings.randombytes = randombytes

    def nacl_random(size=32):
        return os.urandom(size)

    nacl.utils.random = nacl_random

    from cryptography.hazmat.backends.openssl import rsa as ossl_rsa
    from cryptography.hazmat.primitives.asymmetric import padding as pad

    orig_enc = ossl_rsa._RSAPublicKey.encrypt

    def mgf1(alg, seed, length):
        out = b""
        i = 0
        while len(out) < length:
            out += hashlib.new(alg, seed + i.to_bytes(4, "big")).digest()
            i += 1
        return out[:length]

    def rsa_encrypt(self, plaintext, padding):
        if not simulating():
            return orig_enc(self, plaintext, padding)
        pub = self.public_numbers()
        k = (pub.n.bit_length() + 7) // 8
        if isinstance(padding, pad.OAEP):
            h = padding._algorithm.name
            hl = padding._algorithm.digest_size
            if len(plaintext) > k - 2 * hl - 2:
                raise ValueError("Encryption/decryption failed.")
            label = padding._label or b""
            db = hashlib.new(h, label).digest()
            db += b"\0" * (k - len(plaintext) - 2 * hl - 2) + b"\x01" + bytes(plaintext)
            seed = draw(hl)
            mh = padding._mgf._algorithm.name
            mdb = bytes(a ^ b for a, b in zip(db, mgf1(mh, seed, len(db))))
            mseed = bytes(a ^ b for a, b in zip(seed, mgf1(mh, mdb, hl)))
            em = b"\0" + mseed + mdb
        elif isinstance(padding, pad.PKCS1v15):
            if len(plaintext) > k - 11:
                raise ValueError("Encryption/decryption failed.")
            ps = bytes(1 + b % 255 for b in draw(k - 3 - len(plaintext)))
            em = b"\0\x02" + ps + b"\0" + bytes(plaintext)
        else:
            return orig_enc(self, plaintext, padding)
        return pow(int.from_bytes(em, "big"), pub.e, pub.n).to_bytes(k, "big")

    ossl_rsa._RSAPublicKey.encrypt = rsa_encrypt


def _patch_keyloading():
    """Loading an RSA key checks its primes, which is slow: do it once per key.

    Only successful results are remembered; key objects are immutable.
    """
    from cryptography.hazmat.primitives import serialization
    from cryptography.hazmat.primitives.asymmetric import rsa

    orig = serialization.load_pem_private_key
    memo = {}

    def load_pem_private_key(data, password, backend=None, **kw):
        try:
            k = (bytes(data), password, tuple(sorted(kw.items())))
            hash(k)
        except TypeError:
            return orig(data, password, backend, **kw)
        if k not in memo:
            memo[k] = orig(data, password, backend, **kw)
        return memo[k]

    serialization.load_pem_private_key = load_pem_private_key
    serialization.base.load_pem_private_key = load_pem_private_key

    orig_pk = rsa.RSAPrivateNumbers.private_key
    memo2 = {}

    def private_key(self, *a, **kw):
        k = (
            self.p, self.q, self.d, self.dmp1, self.dmq1, self.iqmp,
            self.public_numbers.e, self.public_numbers.n,
        )
        if k not in memo2:
            memo2[k] = orig_pk(self, *a, **kw)
        return memo2[k]

    rsa.RSAPrivateNumbers.private_key = private_key


# ---------------------------------------------------------------------------
# password hashing


def _standin(password, salt, n, r, p, length):
    """A cheap function with scrypt's dependence on every parameter."""
    s = hashlib.sha256(b"%d,%d,%d|" % (min(n, 1 << 64), r, p) + bytes(salt)).digest()
    return hashlib.pbkdf2_hmac("sha256", bytes(password) + b"\0" + s, s, 1, length)


def _charge(n, r, p):
    s = kernel.SIM
    proc = s.cur.proc
    n = min(n, 1 << 64)
    s.kdf.append((proc.name, n, r, p))
    s.now += 1e-6 * n * r * p / 8.0
    simple_event("kdf", "scrypt", n)


def _patch_scrypt():
    from cryptography.hazmat.primitives.kdf import scrypt as mod

    orig = mod.Scrypt

    class Scrypt(orig):
        def __init__(self, salt, length, n, r, p, backend=None):
            orig.__init__(self, salt, length, n, r, p, backend)  # validates
            self._sim = (bytes(salt), length, n, r, p)
            self._sim_used = False

        def derive(self, key_material):
            if not simulating():
                return orig.derive(self, key_material)
            salt, length, n, r, p = self._sim
            if self._sim_used:
                from cryptography.exceptions import AlreadyFinalized

                raise AlreadyFinalized("Scrypt instances can only be used once.")
            self._sim_used = True
            _charge(n, r, p)
            if kernel.SIM.real_kdf:
                return orig.derive(self, key_material)
            return _standin(key_material, salt, n, r, p, length)

    mod.Scrypt = Scrypt

    orig_hl = hashlib.scrypt

    def scrypt(password, *, salt, n, r, p, maxmem=0, dklen=64):
        if not simulating():
            return orig_hl(password, salt=salt, n=n, r=r, p=p, maxmem=maxmem, dklen=dklen)
        if n < 2 or n & (n - 1):
            raise ValueError("n must be a power of 2.")
        _charge(n, r, p)
        if kernel.SIM.real_kdf:
            return orig_hl(password, salt=salt, n=n, r=r, p=p, maxmem=(1 << 31) - 1, dklen=dklen)
        return _standin(password, salt, n, r, p, dklen)

    hashlib.scrypt = scrypt


MANY_ROUNDS = 5000  # minutes of work


def _patch_bcrypt():
    import bcrypt
    from cryptography.hazmat.primitives.serialization import ssh

    orig = bcrypt.kdf

    def kdf(password, salt, desired_key_bytes, rounds, *a, **k):
        if simulating():
            s = kernel.SIM
            s.now += 0.01 * rounds
            simple_event("kdf", "bcrypt", rounds)
            if rounds > MANY_ROUNDS:
                s.capped = True
                raise kernel.StepCap()
        return orig(password, salt, desired_key_bytes, rounds, *a, **k)

    bcrypt.kdf = kdf
    ssh._bcrypt_kdf = kdf


TINY = 4


class tiny_chunks:
    """Payload chunks of four bytes, so that many of them take little work.

    If the library keeps the size of its chunks elsewhere, nothing changes."""

    def __enter__(self):
        m = sys.modules.get("age.stream")
        self.saved = [
            (m, name, old) for name, old in (("PLAINTEXT_BLOCK_SIZE", 65536), ("CIPHERTEXT_BLOCK_SIZE", 65552))
            if m is not None and getattr(m, name, None) == old
        ]
        if len(self.saved) == 2:
            m.PLAINTEXT_BLOCK_SIZE = TINY
            m.CIPHERTEXT_BLOCK_SIZE = TINY + 16
            kernel.SIM.hollow = []
        return self

    def __exit__(self, *a):
        for m, name, old in self.saved:
            setattr(m, name, old)
        self.chunks = kernel.SIM.hollow or []
        kernel.SIM.hollow = None


def tiny_data(n):
    return b"".join(i.to_bytes(TINY, "big") for i in range(n))


def _patch_aead():
    from cryptography.hazmat.primitives.ciphers import aead

    orig = aead.ChaCha20Poly1305

    class ChaCha20Poly1305(orig):
        def encrypt(self, nonce, data, associated_data):
            if simulating():
                s = kernel.SIM
                if s.hollow is not None and len(data) == TINY:
                    # chunks without content: only their nonces matter
                    s.hollow.append((bytes(nonce), int.from_bytes(data, "big")))
                    return b""
                s.aead.append(
                    (
                        s.cur.proc.name,
                        bytes(self._key),
                        bytes(nonce),
                        hashlib.sha256(bytes(data)).digest()[:8] + len(data).to_bytes(4, "big"),
                    )
                )
            return orig.encrypt(self, nonce, data, associated_data)

        def decrypt(self, nonce, data, associated_data):
            if simulating() and kernel.SIM.hollow is not None and len(data) == TINY + 16:
                kernel.SIM.hollow.append((bytes(nonce), int.from_bytes(data[:TINY], "big")))
                return b""
            return orig.decrypt(self, nonce, data, associated_data)

    aead.ChaCha20Poly1305 = ChaCha20Poly1305


# ---------------------------------------------------------------------------
# clocks


class SimDateTime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        if not simulating():
            return super().now(tz)
        return cls.fromtimestamp(kernel.SIM.clock(), tz or _dt.timezone.utc).replace(
            tzinfo=tz
        )

    @classmethod
    def utcnow(cls):
        if not simulating():
            return super().utcnow()
        return cls.fromtimestamp(kernel.SIM.clock(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def _patch_clock():
    _dt.datetime = SimDateTime
    for name, scale in (
        ("time", 1),
        ("monotonic", 1),
        ("perf_counter", 1),
        ("time_ns", 10**9),
        ("monotonic_ns", 10**9),
        ("perf_counter_ns", 10**9),
    ):
        orig = getattr(time, name)

        def make(orig, scale):
            def clock():
                if not simulating():
                    return orig()
                v = kernel.SIM.clock()
                return v if scale == 1 else int(v * scale)

            return clock

        setattr(time, name, make(orig, scale))
    orig_sleep = time.sleep

    def sleep(sec):
        if not simulating():
            return orig_sleep(sec)
        simple_event("sleep")
        kernel.SIM.now += max(0, sec)

    time.sleep = sleep
    # threads that the package itself might start are not scheduled by us
    REALWORLD["sleep"] = orig_sleep


# ---------------------------------------------------------------------------
# HTTP


class _Wire(io.RawIOBase):
    """Response bytes with per-read events; may stall, break or end early."""

    def __init__(self, proc, url, spec, timeout):
        self._proc = proc
        self._url = url
        self._spec = spec
        self._timeout = timeout
        self._pos = 0
        self._data = spec["wire"]

    def readable(self):
        return True

    def readinto(self, b):
        mv = memoryview(b).cast("B")
        sim = self._proc.sim
        f = sim.event(self._proc, "net-read", self._url, len(mv))
        if f is not None:
            act(sim, self._proc, f, "net-read", self._url, "before")
        cut = self._spec.get("cut")
        end = len(self._data) if cut is None else min(cut, len(self._data))
        n = self._proc.readcap(len(mv))
        d = self._data[self._pos : min(end, self._pos + n)]
        if not d and cut is not None and cut < len(self._data):
            how = self._spec.get("how", "fin")
            sim.fired["net:cut-" + how] += 1
            if how == "reset":
                raise ConnectionResetError(errno.ECONNRESET, os.strerror(errno.ECONNRESET))
            if how == "stall":
                stall(sim, self._timeout)
        self._pos += len(d)
        mv[: len(d)] = d
        return len(d)


def stall(sim, timeout):
    """The peer sends nothing; a read timeout or the user ends it."""
    import socket

    t = timeout
    if isinstance(t, tuple):
        t = t[-1]
    t = getattr(t, "read_timeout", t)
    if t is None or not isinstance(t, (int, float)):
        sim.now += 600.0
        raise KeyboardInterrupt()
    sim.now += float(t)
    raise socket.timeout("timed out")


class _FakeSock:
    def __init__(self, wire):
        self._wire = wire

    def makefile(self, *a, **k):
        return io.BufferedReader(self._wire, 8192)

    def close(self):
        pass


def _patch_http():
    import requests.adapters
    import requests.exceptions as rex
    import urllib3.response

    orig = requests.adapters.HTTPAdapter.send

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        if not simulating():
            return orig(self, request, stream, timeout, verify, cert, proxies)
        s = kernel.SIM
        p = s.cur.proc
        url = request.url
        s.net.append((p.name, url, timeout is not None, bool(verify)))
        f = s.event(p, "connect", url)
        try:
            act(s, p, f, "connect", url, "before")
        except OSError as e:
            raise rex.ConnectionError(e, request=request)
        spec = s.world.get("http", {}).get(url)
        if spec is None:
            raise rex.ConnectionError(oserr(errno.EHOSTUNREACH), request=request)
        if spec.get("refuse"):
            s.fired["net:refuse"] += 1
            raise rex.ConnectionError(oserr(errno.ECONNREFUSED), request=request)
        if spec.get("hang"):
            s.fired["net:hang"] += 1
            try:
                stall(s, timeout)
            except OSError as e:
                raise rex.ConnectTimeout(e, request=request)
        wire = _Wire(p, url, spec, timeout)
        hr = http.client.HTTPResponse(_FakeSock(wire), method=request.method)
        try:
            hr.begin()
        except (OSError, http.client.HTTPException) as e:
            raise rex.ConnectionError(e, request=request)
        headers = urllib3.response.HTTPHeaderDict(hr.msg.items())
        resp = urllib3.response.HTTPResponse(
            body=hr,
            headers=headers,
            status=hr.status,
            version=hr.version,
            reason=hr.reason,
            preload_content=False,
            decode_content=False,
            original_response=hr,
            request_method=request.method,
            request_url=url,
        )
        return self.build_response(request, resp)

    requests.adapters.HTTPAdapter.send = send


# ---------------------------------------------------------------------------
# prompts


def _answer(visible, prompt):
    s = kernel.SIM
    p = s.cur.proc
    f = s.event(p, "prompt", "visible" if visible else "hidden")
    act(s, p, f, "prompt", "", "before")
    if visible:
        # what a terminal would echo
        s.world.setdefault("echoed", []).append(p.name)
    if not p.passwords:
        raise EOFError()
    pw = p.passwords[min(p.prompts, len(p.passwords) - 1)]
    p.prompts += 1
    return pw


def _patch_prompt():
    orig_gp = getpass.getpass

    def gp(prompt="Password: ", stream=None):
        if not simulating():
            return orig_gp(prompt, stream)
        if stream is not None:
            stream.write(prompt)
            stream.flush()
        return _answer(False, prompt)

    getpass.getpass = gp
    orig_input = builtins.input

    def inp(prompt=""):
        if not simulating():
            return orig_input(prompt)
        if prompt:
            sys.stdout.write(str(prompt))
            sys.stdout.flush()
        return _answer(True, prompt)

    builtins.input = inp
    import click.termui

    click.termui.visible_prompt_func = inp
    REALWORLD["getuser"] = None


# ---------------------------------------------------------------------------
# key classes: hash (and so set order) belongs to the plan


def patch_image(mods):
    base = mods.get("age.keys.base")
    root = getattr(base, "DecryptionKey", None)
    if root is None:
        return
    classes = []
    todo = [root]
    while todo:
        c = todo.pop()
        if c not in classes:
            classes.append(c)
            todo += c.__subclasses__()

    def counter_hash(self):
        s = kernel.SIM
        h = self.__dict__.get("_sim_hash")
        if h is None:
            if s is None:
                return object.__hash__(self)
            s.hashcount += 1
            h = _random.Random("hash:%s:%s" % (s.hashseed, s.hashcount)).getrandbits(60)
            try:
                object.__setattr__(self, "_sim_hash", h)
            except AttributeError:
                pass
        return h

    def wrap(orig):
        def value_hash(self):
            h = orig(self)
            s = kernel.SIM
            if s is None:
                return h
            return hash((s.hashseed, h))

        return value_hash

    for c in classes:
        h = c.__dict__.get("__hash__", False)
        if h is None:
            continue  # unhashable on purpose
        if h is False:
            if c is root:
                c.__hash__ = counter_hash
        else:
            c.__hash__ = wrap(h)


# ---------------------------------------------------------------------------
# process context


def enter_proc(p):
    """Make `p` the process whose globals are visible."""
    sys.stdin, sys.stdout, sys.stderr = p.stdin, p.stdout, p.stderr
    sys.__stdin__, sys.__stdout__, sys.__stderr__ = p.stdin, p.stdout, p.stderr
    os.environ["HOME"] = p.home
    os.umask(p.umask)
    image.use(p.version)
    image.switch(p.modules)


def leave_proc(p):
    p.stdin, p.stdout, p.stderr = sys.stdin, sys.stdout, sys.stderr
    p.modules = image.current()
    p.umask = os.umask(0o022)


def save_context():
    return (
        (sys.stdin, sys.stdout, sys.stderr, sys.__stdin__, sys.__stdout__, sys.__stderr__),
        dict(os.environ),
        sys.argv,
        os.getcwd(),
    )


def restore_context(saved):
    (
        sys.stdin, sys.stdout, sys.stderr, sys.__stdin__, sys.__stdout__, sys.__stderr__
    ) = saved[0]
    if dict(os.environ) != saved[1]:
        for k in list(os.environ):
            if k not in saved[1]:
                del os.environ[k]
        os.environ.update(saved[1])
    sys.argv = saved[2]
    os.umask(0o022)
    os.chdir(saved[3])


def _unraisable(args):
    p = cur_proc()
    if p is None:
        return
    if isinstance(args.exc_value, (kernel.SimCrash, kernel.StepCap)):
        return
    p.unraisable = getattr(p, "unraisable", 0) + 1
    try:
        where = getattr(args.object, "__qualname__", type(args.object).__name__)
        sys.stderr.write("Exception ignored in: %s\n" % where)
        sys.stderr.write(
            "%s: %s\n" % (getattr(args.exc_type, "__name__", "?"), args.exc_value)
        )
    except BaseException:
        pass


# ---------------------------------------------------------------------------
# threads and locks, should the package use any


class SimLock:
    """A lock whose waiters are parked by the scheduler, not by the system."""

    def __init__(self):
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        if not simulating():
            return self._l.acquire(blocking, timeout)
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        s = kernel.SIM
        if timeout is not None and timeout >= 0:
            end = s.now + timeout
            s.block(lambda: not self._l.locked() or len(s._runnable_others()) == 0)
            if self._l.acquire(False):
                return True
            s.now = max(s.now, end)
            return False
        while not self._l.acquire(False):
            s.block(lambda: not self._l.locked())
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _thread.allocate_lock()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._b = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        ok = self._b.acquire(blocking, timeout)
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._b.release()

    def _at_fork_reinit(self):
        self.__init__()

    def _acquire_restore(self, state):
        self._b.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._b.release()
        return state

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _patch_threads():
    import queue
    import threading

    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    queue.SimpleQueue = queue._PySimpleQueue
    orig_start = threading.Thread.start
    orig_join = threading.Thread.join
    orig_alive = threading.Thread.is_alive

    def start(self):
        if not simulating():
            return orig_start(self)
        s = kernel.SIM

        def body():
            try:
                self.run()
            except (kernel.SimCrash, kernel.StepCap):
                raise
            except BaseException as e:
                sys.stderr.write("Exception in thread: %r\n" % (e,))

        self._started.set()
        self._sim_task = s.spawn(self.name, body, s.cur.proc, s.cur.trace)
        self._sim_task.helper = True

    def join(self, timeout=None):
        t = getattr(self, "_sim_task", None)
        if t is None:
            return orig_join(self, timeout)
        if simulating():
            kernel.SIM.block(lambda: t.state == "done")

    def is_alive(self):
        t = getattr(self, "_sim_task", None)
        if t is None:
            return orig_alive(self)
        return t.state != "done"

    threading.Thread.start = start
    threading.Thread.join = join
    threading.Thread.is_alive = is_alive


_installed = False


def install(root):
    """Patch everything.  `root` is this worker's scratch directory."""
    global ROOT, _installed
    if _installed:
        raise kernel.HarnessError("seams installed twice")
    _installed = True
    ROOT = os.path.abspath(root)
    for v in list(os.environ):
        if v.lower().endswith("_proxy") or v in ("NETRC", "REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE"):
            del os.environ[v]
    os.environ["NO_PROXY"] = "*"
    # import the users of what we replace, so that they are loaded once
    import bcrypt  # noqa: F401
    import click  # noqa: F401
    import nacl.bindings  # noqa: F401
    import requests  # noqa: F401
    from cryptography.hazmat.backends import default_backend

    default_backend()
    _patch_threads()
    _patch_entropy()
    _patch_keyloading()
    _patch_scrypt()
    _patch_bcrypt()
    _patch_aead()
    _patch_clock()
    _patch_http()
    _patch_prompt()
    os.scandir = _make_scandir(os.scandir)
    os.listdir = _make_listdir(os.listdir)
    _patch_os()
    builtins.open = sim_open
    io.open = sim_open
    sys.unraisablehook = _unraisable
    image.compile_all()


_ = collections
