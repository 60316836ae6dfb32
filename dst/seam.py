"""The simulated stdlib modules, and the loader that runs the unmodified rsfile (and _pyio) sources on top of them."""
import _pyio as real_pyio
import builtins
import errno as E
import fcntl as real_fcntl
import multiprocessing as real_mp
import os as real_os
import posixpath
import stat as _stat
import sys
import threading as real_threading
import time as real_time
import types

from .kernel import err
from .sched import NS, HarnessError, SimAbort

REPO_SRC = real_os.environ.get("RSFILE_SRC") or "/repo/src"

SIM = None  # the current World: .sched, .kernel


def set_sim(w):
    global SIM
    SIM = w


def _ctx(name):
    """Entry of a simulated kernel call."""
    if SIM is None:
        raise SimAbort
    t, f = SIM.sched.syscall(name)
    t.sysname = name
    return SIM.kernel, t.proc, t, f


def _after(name, t):
    hooks = SIM.sched.hooks
    if hooks:
        for h in hooks:
            h(t, name)


def _spurious(k, p, fd, f):
    """Nothing possible without blocking, at this very moment, on a non-blocking descriptor."""
    if f and f[0] == "again":
        o = k._get(p, fd).ofd
        if o.flags & real_os.O_NONBLOCK and o.inode.kind == "p":
            k._note_pipe("again", o.inode)
            raise err(E.EAGAIN)


def _fd(x):
    if isinstance(x, int):
        return x
    if hasattr(x, "fileno"):
        x = x.fileno()
        if not isinstance(x, int):
            raise TypeError("fileno() returned a non-integer")
        return x
    if hasattr(x, "__index__"):
        return x.__index__()
    raise TypeError("argument must be an int, or have a fileno() method.")


# ------------------------------------------------------------------ os

def make_os(flavour):
    m = types.ModuleType("os")
    keep = ("fspath", "fsencode", "fsdecode", "strerror", "PathLike", "stat_result", "error", "environ", "getenv",
            "get_exec_path", "cpu_count", "WEXITSTATUS", "WIFEXITED", "major", "minor", "makedev", "urandom")
    for n in dir(real_os):
        v = getattr(real_os, n)
        if n in keep or isinstance(v, (int, str, float)):
            setattr(m, n, v)

    def reg(f):
        setattr(m, f.__name__, f)
        return f

    @reg
    def open(path, flags, mode=0o777, *, dir_fd=None):
        if not isinstance(path, (str, bytes)):
            path = real_os.fspath(path)
        k, p, t, f = _ctx("open")
        if f and f[0] == "err":
            raise err(f[1], path)
        r = k.open(p, path, flags, mode)
        _after("open", t)
        return r

    @reg
    def close(fd):
        k, p, t, f = _ctx("close")
        if f and f[0] == "err":
            # as on Linux: the descriptor is gone even though an error is reported
            k._get(p, fd)
            k.close(p, fd)
            _after("close", t)
            raise err(f[1])
        try:
            k.close(p, fd)
        except OSError:
            p.bad_closes.append(fd)
            raise
        _after("close", t)

    @reg
    def read(fd, n):
        k, p, t, f = _ctx("read")
        if f and f[0] == "err":
            k._get(p, fd)
            raise err(f[1])
        _spurious(k, p, fd, f)
        r = k.read(p, fd, n, f[1] if f and f[0] == "short" else None)
        _after("read", t)
        return r

    @reg
    def pread(fd, n, offset):
        k, p, t, f = _ctx("read")
        if f and f[0] == "err":
            k._get(p, fd)
            raise err(f[1])
        return k.read(p, fd, n, f[1] if f and f[0] == "short" else None, offset)

    @reg
    def readinto(fd, buffer):
        mv = memoryview(buffer).cast("B")
        d = read(fd, len(mv))
        mv[:len(d)] = d
        return len(d)

    def _write(fd, data, pos):
        if isinstance(data, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        data = bytes(memoryview(data).cast("B")) if not isinstance(data, bytes) else data
        k, p, t, f = _ctx("write")
        if f and f[0] == "err":
            k._get(p, fd)
            if SIM.on_fault:
                SIM.on_fault(t, "write", f)
            raise err(f[1])
        _spurious(k, p, fd, f)
        r = k.write(p, fd, data, f[1] if f and f[0] == "short" else None, pos)
        _after("write", t)
        return r

    @reg
    def write(fd, data):
        return _write(fd, data, None)

    @reg
    def pwrite(fd, data, offset):
        return _write(fd, data, offset)

    @reg
    def writev(fd, buffers):
        return _write(fd, b"".join(bytes(b) for b in buffers), None)

    @reg
    def lseek(fd, pos, whence):
        k, p, t, f = _ctx("lseek")
        if f and f[0] == "err":
            k._get(p, fd)
            raise err(f[1])
        r = k.lseek(p, fd, pos, whence)
        _after("lseek", t)
        return r

    @reg
    def ftruncate(fd, length):
        if not isinstance(length, int):
            length = length.__index__()
        k, p, t, f = _ctx("ftruncate")
        if f and f[0] == "err":
            k._get(p, fd)
            raise err(f[1])
        k.ftruncate(p, fd, length)
        _after("ftruncate", t)

    @reg
    def truncate(path, length):
        if isinstance(path, int):
            return ftruncate(path, length)
        raise HarnessError("os.truncate by path")

    @reg
    def fstat(fd):
        k, p, t, f = _ctx("fstat")
        if f and f[0] == "err":
            k._get(p, fd)
            raise err(f[1])
        return k.fstat(p, fd)

    @reg
    def stat(path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return fstat(path)
        k, p, t, f = _ctx("stat")
        if f and f[0] == "err":
            raise err(f[1], path)
        return k.stat_of(k.lookup(path))

    @reg
    def lstat(path, *, dir_fd=None):
        return stat(path)

    @reg
    def access(path, mode, **kw):
        try:
            stat(path)
            return True
        except OSError:
            return False

    @reg
    def fsync(fd):
        fd = _fd(fd)
        k, p, t, f = _ctx("fsync")
        if f and f[0] == "err":
            SIM.note_sync(t, "fsync", f)
            k.fail_sync(p, fd, f[1])
        k.fsync(p, fd)
        _after("fsync", t)

    def fdatasync(fd):
        fd = _fd(fd)
        k, p, t, f = _ctx("fdatasync")
        if f and f[0] == "err":
            SIM.note_sync(t, "fdatasync", f)
            k.fail_sync(p, fd, f[1])
        k.fsync(p, fd, True)
        _after("fdatasync", t)

    if flavour == "linux":
        m.fdatasync = fdatasync

    @reg
    def sync():
        k, p, t, f = _ctx("sync")

    @reg
    def dup(fd):
        k, p, t, f = _ctx("dup")
        if f and f[0] == "err":
            raise err(f[1])
        r = k.dup(p, fd, "lib")
        _after("dup", t)
        return r

    @reg
    def dup2(fd, fd2, inheritable=True):
        k, p, t, f = _ctx("dup")
        s = k._get(p, fd)
        if fd != fd2:
            if fd2 in p.fds:
                k.close(p, fd2)
            k._install(p, s.ofd, not inheritable, "lib", fd2)
        return fd2

    @reg
    def get_inheritable(fd):
        k, p, t, f = _ctx("getfd")
        return not k._get(p, fd).cloexec

    @reg
    def set_inheritable(fd, inheritable):
        k, p, t, f = _ctx("setfd")
        if f and f[0] == "err":
            k._get(p, fd)
            raise err(f[1])
        d = k._get(p, fd)
        d.cloexec = not inheritable
        d.touched = True
        _after("setfd", t)

    @reg
    def get_blocking(fd):
        k, p, t, f = _ctx("getfl")
        return not k._get(p, fd).ofd.flags & real_os.O_NONBLOCK

    @reg
    def set_blocking(fd, blocking):
        k, p, t, f = _ctx("setfl")
        o = k._get(p, fd).ofd
        if blocking:
            o.flags &= ~real_os.O_NONBLOCK
        else:
            o.flags |= real_os.O_NONBLOCK

    @reg
    def isatty(fd):
        k, p, t, f = _ctx("isatty")
        k._get(p, fd) if fd in p.fds else None
        return False

    @reg
    def getpid():
        if SIM is None:
            raise SimAbort
        p = SIM.sched.current.proc if SIM.sched.current is not None else SIM.boot_proc
        if p is None:
            raise SimAbort
        return p.pid

    @reg
    def getppid():
        p = SIM.sched.task().proc
        return p.parent.pid if p.parent else 1

    @reg
    def unlink(path, *, dir_fd=None):
        k, p, t, f = _ctx("unlink")
        if f and f[0] == "err":
            raise err(f[1], path)
        k.unlink(p, path)
        _after("unlink", t)
    m.remove = unlink

    @reg
    def rename(a, b, **kw):
        k, p, t, f = _ctx("rename")
        if f and f[0] == "err":
            raise err(f[1], a)
        k.rename(p, a, b)
        _after("rename", t)
    m.replace = rename

    @reg
    def umask(v):
        k, p, t, f = _ctx("umask")
        o, p.umask = p.umask, v & 0o777
        return o

    @reg
    def fchmod(fd, mode):
        k, p, t, f = _ctx("fchmod")
        i = k._get(p, fd).ofd.inode
        i.mode = _stat.S_IFMT(i.mode) | (mode & 0o7777)

    @reg
    def chmod(path, mode, **kw):
        if isinstance(path, int):
            return fchmod(path, mode)
        k, p, t, f = _ctx("fchmod")
        i = k.lookup(path)
        i.mode = _stat.S_IFMT(i.mode) | (mode & 0o7777)

    @reg
    def pipe():
        k, p, t, f = _ctx("pipe")
        return k.pipe(p, origin="lib")

    @reg
    def getcwd():
        return "/sim"

    @reg
    def getuid():
        return SIM.sched.task().proc.uid
    m.geteuid = getuid

    @reg
    def register_at_fork(*, before=None, after_in_parent=None, after_in_child=None):
        p = SIM.boot_proc or SIM.sched.task().proc
        p.at_fork.append((before, after_in_parent, after_in_child))

    @reg
    def posix_fallocate(fd, offset, length):
        k, p, t, f = _ctx("ftruncate")
        if f and f[0] == "err":
            raise err(f[1])
        i = k._get(p, fd).ofd.inode
        if offset + length > len(i.data):
            k.ftruncate(p, fd, offset + length)

    @reg
    def lockf(fd, cmd, length):
        kind = {real_os.F_LOCK: ("W", False), real_os.F_TLOCK: ("W", True), real_os.F_ULOCK: (None, False)}[cmd]
        _lockf(fd, kind[0], kind[1], length, 0, real_os.SEEK_CUR)

    @reg
    def sched_yield():
        SIM.sched.point("yield")

    def stub(n):
        def f(*a, **k):
            raise HarnessError("os.%s is not simulated" % n)
        f.__name__ = n
        return f

    for n in dir(real_os):
        if not hasattr(m, n) and callable(getattr(real_os, n)) and n not in ("fdatasync",):
            v = getattr(real_os, n)
            setattr(m, n, v if isinstance(v, type) else stub(n))

    pm = types.ModuleType("posixpath")
    for n in dir(posixpath):
        if not n.startswith("__"):
            setattr(pm, n, getattr(posixpath, n))

    def exists(p):
        try:
            stat(p)
            return True
        except (OSError, ValueError):
            return False

    def _is(test):
        def f(p):
            try:
                return test(stat(p).st_mode)
            except (OSError, ValueError):
                return False
        return f
    pm.exists = pm.lexists = exists
    pm.isfile, pm.isdir, pm.islink = _is(_stat.S_ISREG), _is(_stat.S_ISDIR), lambda p: False
    pm.getsize = lambda p: stat(p).st_size
    pm.getmtime = lambda p: stat(p).st_mtime
    pm.abspath = pm.realpath = lambda p, **k: posixpath.normpath(posixpath.join(
        "/sim" if isinstance(p, str) else b"/sim", p))
    m.path = pm
    m.name = "posix"
    return m


# ------------------------------------------------------------------ fcntl

def _lockf(fd, kind, nonblock, length, start, whence):
    name = "unlockf" if kind is None else "lockf"
    k, p, t, f = _ctx(name)
    if f and f[0] == "err":
        k._get(p, fd)
        raise err(f[1])
    k.lockf(p, fd, kind, nonblock, length, start, whence)
    _after(name, t)


def make_fcntl(flavour):
    m = types.ModuleType("fcntl")
    for n in dir(real_fcntl):
        v = getattr(real_fcntl, n)
        if isinstance(v, int):
            setattr(m, n, v)

    def lockf(fd, cmd, len=0, start=0, whence=0):
        fd = _fd(fd)
        nb = bool(cmd & m.LOCK_NB)
        c = cmd & ~m.LOCK_NB
        if c == m.LOCK_UN:
            kind = None
        elif c == m.LOCK_SH:
            kind = "R"
        elif c == m.LOCK_EX:
            kind = "W"
        else:
            raise ValueError("unrecognized lockf argument")
        _lockf(fd, kind, nb, len, start, whence)

    def fcntl(fd, cmd, arg=0):
        fd = _fd(fd)
        if cmd == m.F_GETFD:
            k, p, t, f = _ctx("getfd")
            return m.FD_CLOEXEC if k._get(p, fd).cloexec else 0
        if cmd == m.F_SETFD:
            k, p, t, f = _ctx("setfd")
            if f and f[0] == "err":
                raise err(f[1])
            d = k._get(p, fd)
            d.cloexec = bool(arg & m.FD_CLOEXEC)
            d.touched = True
            _after("setfd", t)
            return 0
        if cmd == m.F_GETFL:
            k, p, t, f = _ctx("getfl")
            return k._get(p, fd).ofd.flags
        if cmd == m.F_SETFL:
            k, p, t, f = _ctx("setfl")
            o = k._get(p, fd).ofd
            keep = real_os.O_APPEND | real_os.O_NONBLOCK
            o.flags = (o.flags & ~keep) | (arg & keep)
            return 0
        if cmd in (m.F_DUPFD, m.F_DUPFD_CLOEXEC):
            k, p, t, f = _ctx("dup")
            d = k._get(p, fd)
            n = arg
            while n in p.fds:
                n += 1
            return k._install(p, d.ofd, cmd == m.F_DUPFD_CLOEXEC, "lib", n)
        if cmd == 51:  # F_FULLFSYNC
            k, p, t, f = _ctx("fullfsync")
            k._get(p, fd)
            if not k.fullfsync:
                raise err(E.EINVAL)
            if f and f[0] == "err":
                SIM.note_sync(t, "fullfsync", f)
                k.fail_sync(p, fd, f[1])
            k.full_fsync(p, fd)
            _after("fullfsync", t)
            return 0
        raise HarnessError("fcntl command %r is not simulated" % cmd)

    def flock(fd, operation):
        raise HarnessError("flock is not simulated")

    def ioctl(*a):
        raise err(E.ENOTTY)

    m.lockf, m.fcntl, m.flock, m.ioctl = lockf, fcntl, flock, ioctl
    return m


# ------------------------------------------------------------------ time

def make_time():
    m = types.ModuleType("time")
    for n in dir(real_time):
        v = getattr(real_time, n)
        if not callable(v) or n in ("gmtime", "strftime", "struct_time"):
            setattr(m, n, v)

    def _now():
        if SIM is None:
            raise SimAbort
        s = SIM.sched
        s.task()
        s.now += 200
        return s

    def mono():
        s = _now()
        tick = SIM.cfg.get("tick")  # a clock of coarse resolution
        return s.now // tick * tick if tick else s.now

    m.time = lambda: (lambda s: (s.now + s.wall_skew) / NS)(_now())
    m.time_ns = lambda: (lambda s: s.now + s.wall_skew)(_now())
    m.monotonic = m.perf_counter = lambda: mono() / NS
    m.monotonic_ns = m.perf_counter_ns = mono
    m.process_time = m.monotonic

    def sleep(secs):
        if secs < 0:
            raise ValueError("sleep length must be non-negative")
        k, p, t, f = _ctx("sleep")
        SIM.note_sleep(t, secs)
        SIM.sched.block("sleep", SIM.sched.now + int(secs * NS), interruptible=True)

    m.sleep = sleep
    return m


# ------------------------------------------------------------------ threading

class SimLock:
    shared = False

    def __init__(self):
        self.owner = None
        self.waiters = []

    def acquire(self, blocking=True, timeout=-1):
        if SIM is None:
            raise SimAbort
        s = SIM.sched
        t = s.point("acquire")
        if self.owner is not None:
            if not blocking or timeout == 0:
                return False
            dl = None if timeout is None or timeout < 0 else s.now + int(timeout * NS)
            while self.owner is not None:
                self.waiters.append(t)
                try:
                    ok = s.block("lock", dl, interruptible=True)
                finally:
                    if t in self.waiters:
                        self.waiters.remove(t)
                if not ok and self.owner is not None:
                    return False
        self.owner = t
        return True

    def release(self):
        if SIM is None:
            raise SimAbort
        s = SIM.sched
        s.task()
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self._free(s)
        s.point("release")

    def _free(self, s):
        self.owner = None
        ws = self.waiters[:]
        del self.waiters[:]
        for w in ws:
            s.wake(w)

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # Condition protocol
    def _save(self, s):
        self._free(s)

    def _restore(self, st):
        SIM_acquire_uninterruptible(self)

    def _owned(self, t):
        return self.owner is not None


def SIM_acquire_uninterruptible(lock):
    s = SIM.sched
    t = s.task()
    while lock.owner is not None:
        lock.waiters.append(t)
        try:
            s.block("lock")
        finally:
            if t in lock.waiters:
                lock.waiters.remove(t)
    lock.owner = t


class SimRLock(SimLock):
    def __init__(self):
        SimLock.__init__(self)
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        if SIM is None:
            raise SimAbort
        t = SIM.sched.task()
        if self.owner is t:
            self.count += 1
            return True
        if SimLock.acquire(self, blocking, timeout):
            self.count = 1
            return True
        return False

    def release(self):
        if SIM is None:
            raise SimAbort
        s = SIM.sched
        t = s.task()
        if self.owner is not t:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self._free(s)
            s.point("release")

    __enter__ = acquire

    def _is_owned(self):
        return self.owner is SIM.sched.task()

    def _save(self, s):
        c = self.count
        self.count = 0
        self._free(s)
        return c

    def _restore(self, c):
        SIM_acquire_uninterruptible(self)
        self.count = c

    def _owned(self, t):
        return self.owner is t


class MpRLock(SimRLock):
    """A multiprocessing lock: shared between processes related by fork."""
    shared = True


class MpLock(SimLock):
    shared = True


class SimCondition:
    shared = False

    def __init__(self, lock=None):
        self._lock = SimRLock() if lock is None else lock
        self._waiters = []
        self.acquire, self.release = self._lock.acquire, self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        if SIM is None:
            raise SimAbort
        s = SIM.sched
        t = s.task()
        if not self._lock._owned(t):
            raise RuntimeError("cannot wait on un-acquired lock")
        w = [t, False]
        self._waiters.append(w)
        st = self._lock._save(s)
        SIM.note_wait(t, timeout)
        dl = None if timeout is None else s.now + int(max(timeout, 0) * NS)
        try:
            s.block("condition", dl, interruptible=True)
            return w[1]
        finally:
            if w in self._waiters:
                self._waiters.remove(w)
            self._lock._restore(st)

    def wait_for(self, predicate, timeout=None):
        end = None
        r = predicate()
        while not r:
            wt = timeout
            if timeout is not None:
                if end is None:
                    end = SIM.sched.now + int(timeout * NS)
                wt = (end - SIM.sched.now) / NS
                if wt <= 0:
                    break
            self.wait(wt)
            r = predicate()
        return r

    def notify(self, n=1):
        if SIM is None:
            raise SimAbort
        s = SIM.sched
        t = s.task()
        if not self._lock._owned(t):
            raise RuntimeError("cannot notify on un-acquired lock")
        for w in self._waiters[:n]:
            w[1] = True
            self._waiters.remove(w)
            s.wake(w[0])

    def notify_all(self):
        self.notify(len(self._waiters))
    notifyAll = notify_all


class SimSemaphore:
    def __init__(self, value=1):
        self._cond = SimCondition(SimLock())
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            if self._value == 0:
                if not blocking:
                    return False
                if not self._cond.wait_for(lambda: self._value > 0, timeout):
                    return False
            self._value -= 1
            return True

    def release(self, n=1):
        with self._cond:
            self._value += n
            self._cond.notify(n)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimEvent:
    def __init__(self):
        self._cond = SimCondition(SimLock())
        self._flag = False

    def is_set(self):
        return self._flag

    def set(self):
        with self._cond:
            self._flag = True
            self._cond.notify_all()

    def clear(self):
        with self._cond:
            self._flag = False

    def wait(self, timeout=None):
        with self._cond:
            if not self._flag:
                self._cond.wait_for(lambda: self._flag, timeout)
            return self._flag


class SimLocal:
    def __init__(self):
        object.__setattr__(self, "_d", {})

    def _mine(self):
        return self._d.setdefault(SIM.sched.task().name, {})

    def __getattr__(self, n):
        try:
            return self._mine()[n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        self._mine()[n] = v

    def __delattr__(self, n):
        del self._mine()[n]


class _FakeThread:
    def __init__(self, t):
        self.name, self.ident, self.daemon = t.name, get_ident(t), False
        self.native_id = self.ident

    def is_alive(self):
        return True


def get_ident(t=None):
    if t is None:
        t = SIM.sched.task()
    return t.ident if hasattr(t, "ident") else 70000 + t.index


def make_threading():
    m = types.ModuleType("threading")
    m.Lock, m.RLock, m.Condition, m.Event, m.local = SimLock, SimRLock, SimCondition, SimEvent, SimLocal
    m.Semaphore = m.BoundedSemaphore = SimSemaphore
    m.get_ident = m.get_native_id = lambda: get_ident()
    m.current_thread = m.currentThread = lambda: _FakeThread(SIM.sched.task())
    m.TIMEOUT_MAX = real_threading.TIMEOUT_MAX
    m.ThreadError = RuntimeError

    def no(*a, **k):
        raise HarnessError("threads inside the library are not simulated")
    m.Thread = m.Timer = no
    th = types.ModuleType("_thread")
    th.allocate_lock = th.LockType = SimLock
    th.RLock = SimRLock
    th.get_ident = m.get_ident
    th.error = RuntimeError
    th.TIMEOUT_MAX = m.TIMEOUT_MAX
    mp = types.ModuleType("multiprocessing")
    mp.RLock, mp.Lock = MpRLock, MpLock

    class _P:
        pass

    def current_process():
        p = _P()
        p.pid = SIM.sched.task().proc.pid
        p.name = "Process-%d" % p.pid
        return p
    mp.current_process = current_process
    mp.get_context = lambda *a: mp
    mp.synchronize = mp
    return m, th, mp


# ------------------------------------------------------------------ the loader

def _real_source(modname):
    """(path, is_package) of an rsfile module, or None."""
    rel = real_os.path.join(REPO_SRC, *modname.split("."))
    if real_os.path.isfile(real_os.path.join(rel, "__init__.py")):
        return real_os.path.join(rel, "__init__.py"), True
    if real_os.path.isfile(rel + ".py"):
        return rel + ".py", False
    return None


_sources = {}   # modname -> (source text, path, is_package) or None
_codes = {}     # (modname, instrumented) -> code
CODE_FILES = set()
TOOL = 4
_tool_ready = False


def _line_event(code, line):
    if SIM is not None:
        SIM.sched.line()


def _instrument(code):
    global _tool_ready
    mon = sys.monitoring
    if not _tool_ready:
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, _line_event)
        _tool_ready = True
    todo = [code]
    while todo:
        c = todo.pop()
        if c.co_name != "<module>":
            mon.set_local_events(TOOL, c, mon.events.LINE)
        todo.extend(x for x in c.co_consts if isinstance(x, types.CodeType))


def _code(modname, lines):
    if modname not in _sources:
        if modname == "_pyio":
            path, ispkg = real_pyio.__file__, False
        else:
            r = _real_source(modname)
            if r is None:
                _sources[modname] = None
                return None
            path, ispkg = r
        with open(path, "rb") as f:
            _sources[modname] = (f.read(), path, ispkg)
    s = _sources[modname]
    if s is None:
        return None
    key = (modname, lines)
    c = _codes.get(key)
    if c is None:
        c = compile(s[0], s[1], "exec", dont_inherit=True)
        if lines:
            _instrument(c)
        _codes[key] = c
    return c, s[1], s[2]


class Platform:
    """The fake modules of one flavour (linux, mac, win-ctypes, win-pywin32) and its shared _pyio."""

    _cache = {}

    @classmethod
    def get(cls, flavour, lines):
        key = (flavour, lines)
        p = cls._cache.get(key)
        if p is None:
            p = cls._cache[key] = cls(flavour, lines)
        return p

    def __init__(self, flavour, lines):
        self.flavour, self.lines = flavour, lines
        th, _th, mp = make_threading()
        self.fakes = {"time": make_time(), "threading": th, "_thread": _th, "multiprocessing": mp}
        self.blocked = set()
        if flavour.startswith("win"):
            from . import winsim
            winsim.install(self, make_os)
        else:
            self.fakes["os"] = make_os(flavour)
            self.fakes["posix"] = self.fakes["os"]
            self.fakes["fcntl"] = make_fcntl(flavour)
            self.fakes["posixpath"] = self.fakes["os"].path
        self.fakes["os.path"] = self.fakes["os"].path
        self.blocked |= {"subprocess", "socket", "signal", "select", "shutil", "tempfile", "asyncio", "mmap"}
        self.pyio = None
        self.pyio = self.load_pyio()

    def load_pyio(self):
        code, path, _ = _code("_pyio", self.lines)
        m = types.ModuleType("_pyio")
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins_for(None)
        exec(code, m.__dict__)
        return m

    def builtins_for(self, pkg):
        d = dict(builtins.__dict__)

        def __import__(name, globals=None, locals=None, fromlist=(), level=0):
            if level:
                base = globals["__package__"].split(".")
                base = base[:len(base) - level + 1]
                full = ".".join(base + ([name] if name else []))
                return pkg.import_(full, fromlist, leaf=True)
            top = name.partition(".")[0]
            if top == "rsfile" and pkg is not None:
                return pkg.import_(name, fromlist, leaf=bool(fromlist))
            if top == "_pyio" and self.pyio is not None:
                return self.pyio
            if name in self.fakes:
                m = self.fakes[name]
                if name == "os.path" and not fromlist:
                    return self.fakes["os"]
                if name == "importlib":
                    return m
                return m
            if top in self.fakes:
                m = self.fakes[top]
                for part in name.split(".")[1:]:
                    sub = getattr(m, part, None)
                    if sub is None:
                        raise ModuleNotFoundError("No module named %r" % name, name=name)
                    leaf = m = sub
                return leaf if fromlist else self.fakes[top]
            if name in self.blocked:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            return builtins.__import__(name, globals, locals, fromlist, level)

        d["__import__"] = __import__

        def no_open(*a, **k):
            raise HarnessError("builtin open() inside the library is not simulated")
        d["open"] = no_open
        if self.flavour.startswith("win"):
            d["WindowsError"] = OSError
            from . import winsim
            d["OSError"] = OSError
        return d


class Package:
    """One process's own instance of the rsfile package."""

    def __init__(self, platform):
        self.platform = platform
        self.modules = {}
        self.builtins = platform.builtins_for(self)
        # tables used when a process forks
        self.by_dict = {}

    def import_(self, name, fromlist, leaf):
        m = self.load(name)
        if fromlist:
            for n in fromlist:
                if n != "*" and not hasattr(m, n) and getattr(m, "__path__", None) is not None:
                    try:
                        self.load(name + "." + n)
                    except ModuleNotFoundError:
                        pass
            return m
        if leaf:
            return m
        return self.modules[name.partition(".")[0]]

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
            m = self.modules.get(name)
            if m is not None:
                return m
        over = self.platform.fakes.get(name)
        if over is not None:
            m = self.modules[name] = over
        else:
            c = _code(name, self.platform.lines)
            if c is None:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            code, path, ispkg = c
            m = types.ModuleType(name)
            m.__file__ = path
            m.__package__ = name if ispkg else parent
            if ispkg:
                m.__path__ = [real_os.path.dirname(path)]
            m.__dict__["__builtins__"] = self.builtins
            self.modules[name] = m
            self.by_dict[id(m.__dict__)] = name
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
        if parent:
            setattr(self.modules[parent], name.rpartition(".")[2], m)
        return m

    @property
    def rs(self):
        return self.load("rsfile")
