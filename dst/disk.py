"""Disk seam: every file operation of the process passes here.

* Files outside the scratch directory are read-only: attempts to create or change one are blocked (PermissionError) and recorded.
* Inside the scratch directory, while armed, every operation is a numbered I/O point. A plan makes chosen points fail:
    {"at": n, "kind": "EIO"|"ENOSPC"|"EACCES"|"short"|"torn"|"crash"|"crash_torn"}, {"quota": bytes}
  `torn`: part of the data reaches the disk, then the error; `crash`: the process dies at this point (user-space buffers are lost);
  `short`: a legal short write/read (fewer bytes than asked).
* `power` crash: additionally data which was not fsynced is lost (truncated), see lose_unsynced()."""
import builtins
import errno
import gc
import io
import os
import shutil
import sys
import _io
from . import world as W

CRASH_EXIT = 77
real = {}
for _n in ("open", "close", "write", "read", "rename", "replace", "unlink", "remove", "mkdir", "makedirs", "rmdir", "listdir", "scandir",
           "truncate", "ftruncate", "link", "symlink", "fsync", "chmod", "utime"):
    if hasattr(os, _n):
        real[_n] = getattr(os, _n)
real_open = builtins.open
RealFileIO = io.FileIO

state = None


class DiskState:
    def __init__(self, scratch):
        self.scratch = os.path.realpath(scratch)
        self.armed = False
        self.plan = []
        self.n = 0
        self.quota = None
        self.used = 0
        self.full = False
        self.trace = []
        self.unsynced = {}  # path -> size known durable
        self.fds = {}
        self.list_seed = None
        self.ops = {}
        self.fired = []
        self.redirect = None  # (directory outside, directory inside the scratch directory which stands for it)
        self.watch = None  # directory outside the scratch directory whose files can fail to be read

    def inside(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        d = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        return d == self.scratch or d.startswith(self.scratch + os.sep)

    def arm(self, plan=(), quota=None):
        self.armed = True
        self.plan = [dict(p) for p in plan]
        self.n = 0
        self.quota = quota
        self.used = 0
        self.full = False
        self.fired = []
        self.trace = []

    def disarm(self):
        self.armed = False
        self.plan = []
        self.quota = None
        self.full = False
        return self.n

    def point(self, op, path, size=0):
        """returns the fault to apply at this point, if any"""
        if not self.armed:
            return None
        self.n += 1
        w = W.current
        name = os.path.basename(str(path)) if not isinstance(path, int) else "fd"
        self.trace.append(op)
        self.ops[op] = self.ops.get(op, 0) + 1
        w.event("io", op, size)
        if self.full and op in ("write", "mkdir"):
            return {"kind": "ENOSPC"}
        if self.full and op.startswith("open-w") and False:
            return {"kind": "ENOSPC"}
        if self.quota is not None and op == "write":
            if self.used + size > self.quota:
                self.full = True
                f = {"kind": "torn", "keep": max(0, self.quota - self.used), "errno": "ENOSPC"}
                self._fire(f, op, "quota")
                return f
            self.used += size
        for f in self.plan:
            if f.get("done"):
                continue
            if "op" in f and not op.startswith(f["op"]):
                continue
            if "op" in f:
                f["seen"] = f.get("seen", 0) + 1
                hit = f["seen"] == f["at"]
            else:
                hit = self.n == f["at"]
            if hit:
                f["done"] = True
                if f.get("persistent"):
                    self.full = True
                self._fire(f, op, f["kind"])
                return f
        return None

    def _fire(self, f, op, label):
        W.current.fault("disk_%s_%s" % (label, op))
        self.fired.append((label, op))
        if f["kind"] == "crash":
            crash()


def crash():
    """the process dies now; what was written through system calls survives"""
    if state is not None and state.on_crash is not None:
        state.on_crash()
    os._exit(CRASH_EXIT)


DiskState.on_crash = None


def _err(f, path):
    k = f.get("errno") or (f["kind"] if f["kind"] in ("EIO", "ENOSPC", "EACCES", "EMFILE") else "EIO")
    no = getattr(errno, k)
    return OSError(no, os.strerror(no), path if not isinstance(path, int) else None)


class SimFileIO(RealFileIO):
    """raw file with fault points; the buffering and text layers above are the real ones"""

    _path = None

    def _raw_write(self, b):
        n = RealFileIO.write(self, b)
        if state is not None and self._path is not None:
            state.unsynced[self._path] = True
        return n

    def write(self, b):
        s = state
        if s is None or not s.armed:
            return self._raw_write(b)
        mv = memoryview(b).cast("B") if not isinstance(b, (bytes, bytearray)) else b
        f = s.point("write", self._path, len(mv))
        if f is None:
            return self._raw_write(b)
        k = f["kind"]
        data = bytes(mv)
        keep = f.get("keep")
        if keep is None:
            keep = int(len(data) * f.get("frac", 0.5))
        if k == "short":
            keep = max(1, keep)
            return self._raw_write(data[:keep])
        if k in ("torn", "crash_torn"):
            part = data[:keep]
            while part:
                part = part[self._raw_write(part):]
            if k == "crash_torn":
                crash()
        raise _err(f, self._path)

    def _rfault(self, size):
        s = state
        if s is None or not s.armed:
            return None
        return s.point("read", self._path, 0)

    def readinto(self, b):
        f = self._rfault(0)
        if f is not None:
            if f["kind"] == "short" and len(b) > 1:
                mv = memoryview(b).cast("B")
                data = RealFileIO.read(self, max(1, int(len(mv) * f.get("frac", 0.5))))
                mv[:len(data)] = data
                return len(data)
            if f["kind"] != "short":
                if f["kind"] == "crash_torn":
                    crash()
                raise _err(f, self._path)
        return RealFileIO.readinto(self, b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        f = self._rfault(size)
        if f is not None and f["kind"] != "short":
            if f["kind"] == "crash_torn":
                crash()
            raise _err(f, self._path)
        if f is not None and size > 1:
            size = max(1, int(size * f.get("frac", 0.5)))
        return RealFileIO.read(self, size)

    def readall(self):
        f = self._rfault(0)
        if f is not None and f["kind"] != "short":
            if f["kind"] == "crash_torn":
                crash()
            raise _err(f, self._path)
        return RealFileIO.readall(self)

    def close(self):
        if not self.closed:
            s = state
            f = None
            if s is not None and s.armed and self._path is not None:
                f = s.point("close", self._path)
            try:
                fd = self.fileno()
                if s is not None:
                    s.fds.pop(fd, None)
            except (OSError, ValueError):
                pass
            wrote = s is not None and self._path is not None and self.writable()
            RealFileIO.close(self)
            if wrote:
                # files carry the simulated time
                try:
                    real["utime"](self._path, (W.current.clock, W.current.clock))
                except OSError:
                    pass
            if f is not None and f["kind"] != "short":
                if f["kind"] == "crash_torn":
                    crash()
                raise _err(f, self._path)

    def truncate(self, size=None):
        s = state
        if s is not None and s.armed:
            f = s.point("truncate", self._path)
            if f is not None and f["kind"] != "short":
                if f["kind"] == "crash_torn":
                    crash()
                raise _err(f, self._path)
        return RealFileIO.truncate(self, size)


def _map(path):
    """the directory of results of the package is simulated by one of the scratch directory"""
    s = state
    if s is None or s.redirect is None or isinstance(path, int):
        return path
    try:
        p = os.fspath(path)
    except TypeError:
        return path
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    a = os.path.realpath(os.path.dirname(os.path.abspath(p)))
    src, dst = s.redirect
    if a == src or a.startswith(src + os.sep):
        return os.path.join(dst + a[len(src):], os.path.basename(p))
    return path


class BlockedWrite(PermissionError):
    pass


def _blocked(op, path):
    W.current.blocked.append((op, str(path)))
    W.current.hit("blocked_write")
    raise BlockedWrite(errno.EACCES, "outside the scratch directory (simulator)", str(path))


ALLOWED = ("/dev/null", "/dev/stdout", "/dev/stderr", "/dev/tty")


def _guard(op, path):
    """True if the operation has to be simulated, False if it is allowed as is"""
    if state is None:
        return False
    if isinstance(path, int):
        return path in state.fds
    if state.inside(path):
        return True
    if str(path) in ALLOWED or str(path).startswith("/dev/shm/"):
        return False
    _blocked(op, path)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = state
    if s is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        try:
            file = os.fspath(file)
        except TypeError:
            pass
        file = _map(file)
    writing = any(c in mode for c in "wax+")
    if isinstance(file, int):
        inside = file in s.fds
        path = s.fds.get(file, file)
    else:
        inside = isinstance(file, (str, bytes)) and s.inside(file)
        path = file
        if writing and not inside:
            if str(file) not in ALLOWED:
                _blocked("open-" + mode, file)
    if not inside and s.armed and s.watch and isinstance(file, str) and not writing and os.path.abspath(file).startswith(s.watch):
        inside = True
    if not inside:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.path.abspath(os.fsdecode(path)) if isinstance(path, (str, bytes)) else path
    if not isinstance(file, int):
        f = s.point("open-w" if writing else "open-r", path)
        if f is not None and f["kind"] != "short":
            if f["kind"] == "crash_torn":
                crash()
            raise _err(f, path)
    # same layering as io.open
    binary = "b" in mode
    raw_mode = "".join(c for c in mode if c in "rwax") + ("+" if "+" in mode else "")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if binary and newline is not None:
        raise ValueError("binary mode doesn't take a newline argument")
    if writing and s.collect:
        gc.collect()
        gc.collect()
    raw = SimFileIO(file, raw_mode, closefd, opener)
    raw._path = path
    if writing:
        s.unsynced[path] = True
    if not isinstance(file, int):
        s.fds[raw.fileno()] = path
    line_buffering = False
    if buffering == 1 and not binary:
        buffering = -1
        line_buffering = True
    if buffering < 0:
        buffering = s.bufsize
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    if "+" in mode:
        buf = io.BufferedRandom(raw, buffering)
    elif writing:
        buf = io.BufferedWriter(raw, buffering)
    else:
        buf = io.BufferedReader(raw, buffering)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    text.mode = mode
    return text


DiskState.bufsize = 8192
DiskState.collect = False


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    s = state
    if s is None:
        return real["open"](path, flags, mode, dir_fd=dir_fd)
    path = _map(path)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    inside = s.inside(path)
    if writing and not inside and str(path) not in ALLOWED:
        _blocked("os.open", path)
    if inside:
        f = s.point("open-w" if writing else "open-r", path)
        if f is not None and f["kind"] != "short":
            if f["kind"] == "crash_torn":
                crash()
            raise _err(f, path)
    fd = real["open"](path, flags, mode, dir_fd=dir_fd) if dir_fd is not None else real["open"](path, flags, mode)
    if inside:
        s.fds[fd] = os.path.abspath(os.fsdecode(path))
        if writing:
            s.unsynced[s.fds[fd]] = True
    return fd


def sim_os_write(fd, data):
    s = state
    if s is None or not s.armed or fd not in s.fds:
        return real["write"](fd, data)
    f = s.point("write", s.fds[fd], len(data))
    if f is None:
        return real["write"](fd, data)
    data = bytes(data)
    keep = f.get("keep")
    if keep is None:
        keep = int(len(data) * f.get("frac", 0.5))
    if f["kind"] == "short":
        return real["write"](fd, data[:max(1, keep)])
    if f["kind"] in ("torn", "crash_torn"):
        real["write"](fd, data[:keep])
        if f["kind"] == "crash_torn":
            crash()
    raise _err(f, s.fds[fd])


def sim_os_close(fd):
    s = state
    if s is not None:
        s.fds.pop(fd, None)
    return real["close"](fd)


def sim_fsync(fd):
    s = state
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    if s is not None and fd in s.fds:
        f = s.point("fsync", s.fds[fd]) if s.armed else None
        if f is not None and f["kind"] != "short":
            if f["kind"] == "crash_torn":
                crash()
            raise _err(f, s.fds[fd])
        real["fsync"](fd)
        s.unsynced.pop(s.fds[fd], None)
        return
    return real["fsync"](fd)


def _two(name):
    fn = real[name]

    def op(src, dst, *a, **k):
        s = state
        if s is None:
            return fn(src, dst, *a, **k)
        src, dst = _map(src), _map(dst)
        g1, g2 = _guard(name, src), _guard(name, dst)
        if (g1 or g2) and s.armed:
            f = s.point(name, dst)
            if f is not None and f["kind"] != "short":
                if f["kind"] == "crash_torn":
                    fn(src, dst, *a, **k)
                    _moved(src, dst)
                    crash()
                raise _err(f, dst)
        r = fn(src, dst, *a, **k)
        _moved(src, dst)
        return r

    return op


def _moved(src, dst):
    s = state
    a, b = os.path.abspath(os.fsdecode(src)), os.path.abspath(os.fsdecode(dst))
    s.unsynced.pop(b, None)
    if s.unsynced.pop(a, None):
        s.unsynced[b] = True


def _one(name):
    fn = real[name]

    def op(path, *a, **k):
        s = state
        if s is None:
            return fn(path, *a, **k)
        path = _map(path)
        if k.get("dir_fd") is None and _guard(name, path) and s.armed:
            f = s.point(name, path)
            if f is not None and f["kind"] != "short":
                if f["kind"] == "crash_torn":
                    fn(path, *a, **k)
                    crash()
                raise _err(f, path)
        r = fn(path, *a, **k)
        if name in ("unlink", "remove") and not isinstance(path, int):
            s.unsynced.pop(os.path.abspath(os.fsdecode(path)), None)
        return r

    return op


def _permute(names, path):
    s = state
    if s is None or s.list_seed is None:
        return names
    names = sorted(names, key=lambda e: e if isinstance(e, (str, bytes)) else e.name)
    W.prng("listdir", s.list_seed).shuffle(names)
    W.current.hit("permuted_listing")
    return names


def sim_listdir(path="."):
    s = state
    if s is not None and s.armed and not isinstance(path, int) and s.inside(path):
        f = s.point("listdir", path)
        if f is not None and f["kind"] != "short":
            raise _err(f, path)
    return _permute(real["listdir"](path), path)


class _Scan:
    def __init__(self, entries):
        self.e = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.e)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def sim_scandir(path="."):
    if state is None or state.list_seed is None:
        return real["scandir"](path)
    return _Scan(_permute(list(real["scandir"](path)), path))


def install():
    builtins.open = sim_open
    io.open = sim_open
    _io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.close = sim_os_close
    os.fsync = sim_fsync
    for n in ("rename", "replace", "link", "symlink"):
        setattr(os, n, _two(n))
    for n in ("unlink", "remove", "mkdir", "rmdir", "truncate", "chmod", "utime"):
        setattr(os, n, _one(n))
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "_HAS_FCOPYFILE"):
        shutil._HAS_FCOPYFILE = False


def start(scratch):
    global state
    state = DiskState(scratch)
    W.current.scratch = state.scratch
    return state


def stop():
    global state
    s = state
    state = None
    return s
