"""The simulated Windows: a Win32 file API (handles, mandatory per-handle range locks, file pointers, explicit end of
file), the C runtime's descriptors over it, and the modules through which rsfile reaches them (ctypes or pywin32).

Kernel calls keep the names of their POSIX counterparts as far as schedules and faults are concerned: LockFileEx is
"lockf", SetEndOfFile "ftruncate", and so on; faults given as an errno are turned into the matching Win32 code."""
import ctypes as real_ctypes
import errno as E
import os as real_os
import stat
import sys as real_sys
import types

from . import seam
from .kernel import ACC, MAXSIZE, Fd, Inode, Kernel, OFD, err
from .sched import HarnessError, SimAbort

M64 = (1 << 64) - 1
EPOCH = 116444736000000000
INVALID = M64
GENERIC_READ, GENERIC_WRITE = 0x80000000, 0x40000000
WRITE_THROUGH = 0x80000000

# errno of an injected fault -> Win32 code
CODES = {E.ENOSPC: 112, E.EMFILE: 4, E.EACCES: 5, E.EBADF: 6, E.EIO: 1117, E.EINVAL: 87, E.EFBIG: 223, E.ENOLCK: 1130,
         E.EDEADLK: 1131, E.EAGAIN: 33, E.EINTR: 995, E.ENOMEM: 8, E.ENOENT: 2, E.EISDIR: 5, E.EEXIST: 80, E.ENOTDIR: 3}
# CPython's own errmap (PC/errmap.h); anything else is EINVAL
ERRMAP = {2: 2, 3: 2, 4: 24, 5: 13, 6: 9, 7: 12, 8: 12, 9: 12, 10: 7, 11: 8, 15: 2, 16: 13, 17: 18, 18: 2, 19: 13, 20: 13,
          21: 13, 22: 13, 23: 13, 24: 13, 25: 13, 26: 13, 27: 13, 28: 13, 29: 13, 30: 13, 31: 13, 32: 13, 33: 13, 34: 13,
          35: 13, 36: 13, 53: 2, 65: 13, 67: 2, 80: 17, 82: 13, 83: 13, 89: 11, 108: 13, 109: 32, 112: 28, 114: 9, 128: 10,
          129: 10, 130: 9, 131: 22, 132: 13, 145: 41, 158: 13, 161: 2, 164: 11, 167: 13, 183: 17, 188: 8, 206: 2, 215: 11,
          232: 32, 1816: 12}


def errno_of(code):
    return ERRMAP.get(code, E.EINVAL)


class WinErr(Exception):
    def __init__(self, code):
        Exception.__init__(self, code)
        self.code = code


class WinFd(Fd):
    __slots__ = ()


class WinKernel(Kernel):
    """Kernel objects are shared with the POSIX simulator; what differs is below."""

    windows = True

    def new_process(self, parent=None, std=(0, 1, 2)):
        p = Kernel.new_process(self, parent, std=(4, 8, 12))
        p.cfds = {c: 4 * c + 4 for c in std}
        p.cfd_log = []
        p.foreign = set()   # descriptors made for handles which are not the library's
        p.hcfds = {}     # descriptors the application made for its own handles
        return p

    def _install(self, proc, ofd, cloexec, origin, fd=None):
        if fd is None:
            fd = 4
            while fd in proc.fds:
                fd += 4
        return Kernel._install(self, proc, ofd, cloexec, origin, fd)

    def handle(self, proc, h):
        f = proc.fds.get(h)
        if self.on_get is not None:
            self.on_get(proc, h, f)
        if f is None:
            raise WinErr(6)
        return f

    def _drop(self, proc, fd):
        f = proc.fds.pop(fd)
        ofd = f.ofd
        i = ofd.inode
        ofd.refs -= 1
        if ofd.refs == 0:
            n = len(i.locks)
            i.locks[:] = [l for l in i.locks if l[4] is not ofd]
            if len(i.locks) != n or i.waiters:
                self._wake_lockers(i)

    # ---- the Win32 calls
    def create_file(self, proc, path, access, disposition, flags, inherit, origin="lib"):
        p = self.norm(path)
        if p is None:
            raise WinErr(3)
        if len(proc.fds) >= self.cfg.get("maxfds", 1024):
            raise WinErr(4)
        i = self.names.get(p)
        rd, wr = bool(access & GENERIC_READ), bool(access & GENERIC_WRITE)
        if i is None:
            par = self.names.get(real_os.path.dirname(p))
            if par is None or par.kind != "d":
                raise WinErr(3)
            if disposition == 3:
                raise WinErr(2)
            i = Inode(self, "f", stat.S_IFREG | (0o444 if flags & 1 else 0o666))
            i.nlink = 1
            self.names[p] = i
            if self.on_create:
                self.on_create(proc, p, i)
        else:
            if disposition == 1:
                raise WinErr(80)
            if i.kind == "d":
                raise WinErr(5)
            if wr and i.kind == "f" and not i.mode & 0o200:
                raise WinErr(5)
        mode = real_os.O_RDWR if rd and wr else real_os.O_WRONLY if wr else real_os.O_RDONLY
        if flags & WRITE_THROUGH:
            mode |= real_os.O_SYNC
        return self._install(proc, OFD(i, mode, p), not inherit, origin)

    def duplicate(self, proc, h, inherit):
        return self._install(proc, self.handle(proc, h).ofd, not inherit, "lib")

    def close_handle(self, proc, h):
        f = proc.fds.get(h)
        if f is None:
            proc.bad_closes.append(h)
            raise WinErr(6)
        proc.closed_log.append((h, f.gen, f.origin))
        self._drop(proc, h)

    def denied(self, i, ofd, s, e, write):
        """Mandatory locks: may these bytes be transferred through this handle?"""
        for p, a, b, x, o in i.locks:
            if a == b:
                continue
            if self.overlap(a, b, s, e) and (o is not ofd if x else write):
                return True
        return False

    def read_file(self, proc, h, n):
        f = self.handle(proc, h)
        ofd, i = f.ofd, f.ofd.inode
        if not ofd.readable:
            raise WinErr(5)
        if i.kind == "c":
            return b""
        if n and self.denied(i, ofd, ofd.pos, ofd.pos + n, False):
            raise WinErr(33)
        d = bytes(i.data[ofd.pos:ofd.pos + n])
        ofd.pos += len(d)
        i.atime = self.wall()
        return d

    def write_file(self, proc, h, data):
        f = self.handle(proc, h)
        ofd, i = f.ofd, f.ofd.inode
        if not ofd.writable:
            raise WinErr(5)
        if i.kind == "c":
            return len(data)
        n, at = len(data), ofd.pos
        if not n:
            return 0
        if self.denied(i, ofd, at, at + n, True):
            raise WinErr(33)
        if at + n > MAXSIZE:
            raise WinErr(223)
        if self._room(i, at + n) < at + n:
            raise WinErr(112)
        if self.on_write:
            self.on_write(proc, ofd, i, at, data)
        self.gap(i, at)
        i.data[at:at + n] = data
        ofd.pos = at + n
        i.touch_m()
        i.journal.append(("w", at, data))
        if i.writes is not None:
            i.writes.append(("w", at, data, proc.pid))
        if ofd.flags & real_os.O_SYNC == real_os.O_SYNC:
            self._flush_all(i, True)
        return n

    def gap(self, i, at):
        """The bytes between the old end of the file and the new one are whatever was on the disk."""
        cur = len(i.data)
        if at > cur:
            junk = b"\xdd" * (at - cur)
            i.data.extend(junk)
            i.journal.append(("w", cur, junk))
            if i.writes is not None:
                i.writes.append(("w", cur, junk, 0))

    def set_pointer(self, proc, h, off, method):
        f = self.handle(proc, h)
        base = {0: 0, 1: f.ofd.pos, 2: len(f.ofd.inode.data)}.get(method)
        if base is None:
            raise WinErr(87)
        n = base + off
        if n < 0:
            raise WinErr(131)
        if n >= 1 << 63:
            raise WinErr(87)
        f.ofd.pos = n
        return n

    def set_end(self, proc, h):
        f = self.handle(proc, h)
        ofd, i = f.ofd, f.ofd.inode
        if not ofd.writable:
            raise WinErr(5)
        n, cur = ofd.pos, len(i.data)
        if n > MAXSIZE:
            raise WinErr(223)
        if n > cur and self._room(i, n) < n:
            raise WinErr(112)
        if self.denied(i, ofd, min(n, cur), max(n, cur), True) and n != cur:
            raise WinErr(33)
        if self.on_size and n != cur:
            self.on_size(i, n)
        if n < cur:
            del i.data[n:]
            i.journal.append(("t", n))
            if i.writes is not None:
                i.writes.append(("t", n))
        else:
            self.gap(i, n)
        i.touch_m()
        if ofd.flags & real_os.O_SYNC == real_os.O_SYNC:
            self._flush_all(i, True)

    def flush_buffers(self, proc, h):
        f = self.handle(proc, h)
        if not f.ofd.writable:
            raise WinErr(5)
        if f.ofd.inode.kind != "f":
            return
        self._flush_all(f.ofd.inode, True)

    def lock_range(self, low, high, olow, ohigh):
        s, n = olow + (ohigh << 32), low + (high << 32)
        if n and s + n - 1 > M64:
            raise WinErr(307)
        return s, None if s + n >= M64 else s + n

    def lock_file(self, proc, h, excl, fail_now, s, e):
        f = self.handle(proc, h)
        ofd, i = f.ofd, f.ofd.inode
        if i.kind != "f":
            raise WinErr(1)
        t = self.sched.task()
        while True:
            c = None
            for l in i.locks:
                if self.overlap(l[1], l[2], s, e) and (l[3] or excl) and not (l[4] is ofd and l[3] and not excl):
                    c = l
                    break
            if c is None:
                i.locks.append([proc.pid, s, e, excl, ofd])
                return
            if fail_now:
                raise WinErr(33)
            w = (t, proc.pid, c[0])
            i.waiters.append(w)
            try:
                self.sched.block("kernel lock")
            finally:
                if w in i.waiters:
                    i.waiters.remove(w)
            if proc.fds.get(h) is not f:
                raise WinErr(995)

    def unlock_file(self, proc, h, s, e):
        f = self.handle(proc, h)
        i = f.ofd.inode
        best = None
        for l in i.locks:
            if l[4] is f.ofd and l[1] == s and l[2] == e:
                best = l
                if l[3]:
                    break      # exclusive locks go first
        if best is None:
            raise WinErr(158)
        i.locks.remove(best)
        self._wake_lockers(i)

    def held_cover(self, i, pid, start, end, excl):
        segs = sorted([(l[1], l[2]) for l in i.locks if l[0] == pid and (l[3] or not excl)], key=lambda x: x[0])
        at = start
        for s, e in segs:
            if s > at:
                break
            if e is None:
                return True
            at = max(at, e)
            if end is not None and at >= end:
                return True
        return end is not None and at >= end

    # ---- harness
    def open(self, proc, path, flags, mode=0o777, origin="lib"):
        acc = {real_os.O_RDONLY: GENERIC_READ, real_os.O_WRONLY: GENERIC_WRITE,
               real_os.O_RDWR: GENERIC_READ | GENERIC_WRITE}[flags & ACC]
        return self.create_file(proc, path, acc, 4 if flags & real_os.O_CREAT else 3, 0, False, origin)

    def crt_open(self, proc, h):
        c = 0
        while c in proc.cfds:
            c += 1
        proc.cfds[c] = h
        proc.foreign.discard(c)
        if h in proc.fds and proc.fds[h].origin != "lib":
            proc.foreign.add(c)
        return c

    def filetime(self, ns):
        return ns // 100 + EPOCH


def call(name):
    """Entry of a Win32 call: the kernel, the process, and any fault as a Win32 code."""
    k, p, t, f = seam._ctx(name)
    if f and f[0] == "err":
        return k, p, t, CODES.get(f[1], 1117)
    return k, p, t, None


def guarded(name, fn):
    """Runs fn(kernel, process), or raises the injected failure."""
    k, p, t, code = call(name)
    if code is not None:
        raise WinErr(code)
    r = fn(k, p)
    seam._after(name, t)
    return r


# the calls themselves, common to both bindings; they raise WinErr
def w_close(h):
    k, p, t, code = call("close")
    if code is not None:
        k.close_handle(p, h)      # reported as failed, but the handle is gone
        seam._after("close", t)
        raise WinErr(code)
    k.close_handle(p, h)
    seam._after("close", t)


def w_flush(h):
    k, p, t, code = call("fsync")
    if code is not None:
        seam.SIM.note_sync(t, "fsync", ("err", errno_of(code)))
        f = k.handle(p, h)
        i = f.ofd.inode
        if code == 1117:
            del i.journal[:]
        raise WinErr(code)
    k.flush_buffers(p, h)
    seam._after("fsync", t)


def w_lock(h, flags, nlow, nhigh, olow, ohigh):
    def fn(k, p):
        s, e = k.lock_range(nlow, nhigh, olow, ohigh)
        k.lock_file(p, h, bool(flags & 2), bool(flags & 1), s, e)
    guarded("lockf", fn)


def w_unlock(h, nlow, nhigh, olow, ohigh):
    def fn(k, p):
        s, e = k.lock_range(nlow, nhigh, olow, ohigh)
        k.unlock_file(p, h, s, e)
    guarded("unlockf", fn)


def w_write(h, data):
    k, p, t, code = call("write")
    if code is not None:
        if seam.SIM.on_fault:
            seam.SIM.on_fault(t, "write", ("err", errno_of(code)))
        raise WinErr(code)
    r = k.write_file(p, h, data)
    seam._after("write", t)
    return r


# ------------------------------------------------------------------ os, msvcrt, sys

def winerror(code, path=None):
    e = OSError(errno_of(code), "[WinError %d] simulated" % code, *(() if path is None else (path,)))
    e.winerror = code
    return e


def crt_handle(p, cfd):
    if not isinstance(cfd, int) or cfd not in p.cfds or p.cfds[cfd] not in p.fds:
        raise err(E.EBADF)
    return p.cfds[cfd]


def make_winos(make_os):
    m = make_os("win")
    for n in ("fork", "register_at_fork", "fdatasync", "posix_fallocate", "lockf", "pread", "pwrite", "writev", "fchmod",
              "getuid", "geteuid", "pipe", "dup2", "sched_yield", "O_CLOEXEC", "O_SYNC", "O_DSYNC", "O_NONBLOCK", "fork",
              "forkpty", "sync"):
        if hasattr(m, n):
            delattr(m, n)
    m.name, m.sep, m.linesep = "nt", "/", "\r\n"
    m.O_BINARY, m.O_NOINHERIT, m.O_TEXT = 0x8000, 0x80, 0x4000

    def close(cfd):
        k, p, t, code = call("close")
        h = p.cfds.pop(cfd, None)
        if h is None:
            p.bad_closes.append(("crt", cfd))
            raise err(E.EBADF)
        p.cfd_log.append(("close", cfd, h))
        try:
            k.close_handle(p, h)
        except WinErr:
            raise err(E.EBADF)
        seam._after("close", t)
        if code is not None:
            raise err(errno_of(code))

    def fstat(cfd):
        k, p, t, code = call("fstat")
        h = crt_handle(p, cfd)
        if code is not None:
            raise err(errno_of(code))
        i = p.fds[h].ofd.inode
        s = k.stat_of(i)
        return types.SimpleNamespace(**{n: getattr(s, n) for n in dir(s) if n.startswith("st_") and
                                        n not in ("st_blksize", "st_blocks", "st_rdev")})

    def write(cfd, data):
        k, p, t, code = call("write")
        if code is not None:
            raise err(errno_of(code))
        h = crt_handle(p, cfd)
        try:
            return k.write_file(p, h, bytes(data))
        except WinErr as e:
            raise winerror(e.code)

    def read(cfd, n):
        k, p, t, code = call("read")
        if code is not None:
            raise err(errno_of(code))
        h = crt_handle(p, cfd)
        try:
            return k.read_file(p, h, n)
        except WinErr as e:
            raise winerror(e.code)

    def isatty(cfd):
        k, p, t, code = call("isatty")
        return False

    def get_blocking(cfd):
        k, p, t, code = call("getfl")
        crt_handle(p, cfd)
        raise winerror(1)     # not a pipe

    def set_blocking(cfd, blocking):
        k, p, t, code = call("setfl")
        crt_handle(p, cfd)
        raise winerror(1)

    for f in (close, fstat, write, read, isatty, get_blocking, set_blocking):
        setattr(m, f.__name__, f)

    def no(*a, **kw):
        raise HarnessError("this os function is not simulated on Windows")
    for n in ("lseek", "ftruncate", "fsync", "dup", "open", "get_inheritable", "set_inheritable", "umask"):
        setattr(m, n, no)
    return m


def make_msvcrt():
    m = types.ModuleType("msvcrt")

    def open_osfhandle(handle, flags):
        k, p, t, code = call("crt")
        if handle not in p.fds:
            raise err(E.EBADF)
        c = k.crt_open(p, handle)
        p.cfd_log.append(("open", c, handle))
        return c

    def get_osfhandle(fd):
        k, p, t, code = call("crt")
        return crt_handle(p, fd)

    m.open_osfhandle, m.get_osfhandle = open_osfhandle, get_osfhandle
    m.setmode = lambda fd, mode: 0
    return m


def make_sys():
    m = types.ModuleType("sys")
    for n in dir(real_sys):
        if not n.startswith("__"):
            setattr(m, n, getattr(real_sys, n))
    m.platform = "win32"
    return m


# ------------------------------------------------------------------ ctypes

def make_wintypes():
    m = types.ModuleType("ctypes.wintypes")
    c = real_ctypes
    m.DWORD, m.LONG, m.BOOL, m.WORD, m.UINT = c.c_uint32, c.c_int32, c.c_int32, c.c_uint16, c.c_uint32
    m.HANDLE = m.LPVOID = m.LPCVOID = c.c_void_p
    m.LARGE_INTEGER = c.c_int64
    m.LPCSTR, m.LPCWSTR = c.c_char_p, c.c_wchar_p

    class FILETIME(c.Structure):
        _fields_ = [("dwLowDateTime", c.c_uint32), ("dwHighDateTime", c.c_uint32)]
    m.FILETIME = FILETIME
    return m


class Func:
    """A foreign function."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.argtypes = self.restype = None

    def __call__(self, *args):
        if self.fn is None:
            raise HarnessError("%s is not simulated" % self.name)
        types_ = self.argtypes
        if types_ is None:
            raise HarnessError("%s: called without argtypes" % self.name)
        if len(args) < len(types_):
            raise TypeError("this function takes at least %d arguments (%d given)" % (len(types_), len(args)))
        out = []
        for ty, a in zip(types_, args):
            if hasattr(a, "_obj"):
                out.append(a._obj)                      # byref()
            elif a is None:
                ty.from_param(a)
                out.append(None)
            elif isinstance(a, (real_ctypes.Structure, real_ctypes.Array)):
                out.append(a)
            elif issubclass(ty, real_ctypes._SimpleCData):
                ty.from_param(a)
                out.append(ty(a).value if not isinstance(a, real_ctypes._SimpleCData) else a.value)
            else:
                raise real_ctypes.ArgumentError("%s: wrong argument %r" % (self.name, a))
        try:
            r = self.fn(*out)
        except WinErr as e:
            set_last(e.code)
            return INVALID if self.name.startswith("CreateFile") else 0
        return 1 if r is None else r


def set_last(code):
    seam.SIM.sched.task().last_error = code


def get_last():
    return getattr(seam.SIM.sched.task(), "last_error", 0)


def make_ctypes(wintypes):
    m = types.ModuleType("ctypes")
    for n in dir(real_ctypes):
        if not n.startswith("__"):
            setattr(m, n, getattr(real_ctypes, n))
    m.__all__ = [n for n in dir(real_ctypes) if not n.startswith("_")] + ["WinDLL", "WINFUNCTYPE", "WinError", "GetLastError"]
    m.wintypes = wintypes
    m.WINFUNCTYPE = real_ctypes.CFUNCTYPE
    m.GetLastError = get_last

    def WinError(code=None, descr=None):
        return winerror(get_last() if code is None else code)
    m.WinError = m.FormatError = WinError

    def CreateFileW(name, access, share, attrs, disposition, flags, template):
        if share != 7:
            raise HarnessError("sharing modes are not simulated")
        inherit = bool(attrs is not None and attrs.bInheritHandle)
        return guarded("open", lambda k, p: k.create_file(p, name, access, disposition, flags, inherit))

    def ReadFile(h, address, n, got, overlapped):
        d = guarded("read", lambda k, p: k.read_file(p, h, n))
        if d:
            real_ctypes.memmove(address, d, len(d))
        got.value = len(d)

    def WriteFile(h, buf, n, done, overlapped):
        done.value = w_write(h, bytes(bytearray(buf)[:n]))

    def SetFilePointerEx(h, off, new, method):
        r = guarded("lseek", lambda k, p: k.set_pointer(p, h, off, method))
        if new is not None:
            new.value = r

    def GetFileSizeEx(h, size):
        size.value = guarded("fstat", lambda k, p: len(k.handle(p, h).ofd.inode.data))

    def GetFileInformationByHandle(h, info):
        i, k = guarded("fstat", lambda k, p: (k.handle(p, h).ofd.inode, k))
        for n, v in (("ftCreationTime", i.ctime), ("ftLastAccessTime", i.atime), ("ftLastWriteTime", i.mtime)):
            v = k.filetime(v)
            ft = getattr(info, n)
            ft.dwLowDateTime, ft.dwHighDateTime = v & 0xffffffff, v >> 32
        info.dwVolumeSerialNumber = 0x8a31c0de + i.dev - k.dev
        info.nFileSizeLow, info.nFileSizeHigh = len(i.data) & 0xffffffff, len(i.data) >> 32
        info.nNumberOfLinks = i.nlink
        info.nFileIndexLow, info.nFileIndexHigh = (0x80000000 | i.ino), 0x00030000

    def LockFileEx(h, flags, res, low, high, ov):
        w_lock(h, flags, low, high, ov.Offset, ov.OffsetHigh)

    def UnlockFileEx(h, res, low, high, ov):
        w_unlock(h, low, high, ov.Offset, ov.OffsetHigh)

    fns = dict(CreateFileW=CreateFileW, CreateFileA=CreateFileW, ReadFile=ReadFile, WriteFile=WriteFile,
               SetFilePointerEx=SetFilePointerEx, GetFileSizeEx=GetFileSizeEx, LockFileEx=LockFileEx,
               UnlockFileEx=UnlockFileEx, GetFileInformationByHandle=GetFileInformationByHandle, CloseHandle=w_close,
               FlushFileBuffers=w_flush, GetLastError=get_last,
               SetEndOfFile=lambda h: guarded("ftruncate", lambda k, p: k.set_end(p, h)))

    class DLL:
        def __init__(self, name):
            pass

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            f = Func(n, fns.get(n))
            setattr(self, n, f)
            return f
    m.WinDLL = m.CDLL = DLL
    return m


# ------------------------------------------------------------------ pywin32

def make_pywin32():
    wt = types.ModuleType("pywintypes")

    class error(Exception):
        def __init__(self, code, funcname=None, strerror=None):
            Exception.__init__(self, code, funcname, strerror)
            self.winerror, self.funcname, self.strerror = code, funcname, strerror
    error.__name__ = "error"
    wt.error = error

    class OVERLAPPED:
        def __init__(self):
            self.Offset = self.OffsetHigh = self.hEvent = 0
    wt.OVERLAPPED = OVERLAPPED

    class SECURITY_ATTRIBUTES:
        def __init__(self):
            self.bInheritHandle = False
            self.SECURITY_DESCRIPTOR = None
    wt.SECURITY_ATTRIBUTES = SECURITY_ATTRIBUTES

    class PyHANDLE:
        def __init__(self, h):
            self.h = h

        def __int__(self):
            return self.h

        def Detach(self):
            h, self.h = self.h, 0
            return h

        def Close(self):
            h, self.h = self.h, 0
            if h:
                convert("CloseHandle", w_close, h)

        def __del__(self):
            if self.h and seam.SIM is not None:
                try:
                    self.Close()
                except (error, SimAbort):
                    pass
    wt.HANDLEType = PyHANDLE

    def convert(fname, fn, *a):
        try:
            return fn(*a)
        except WinErr as e:
            set_last(e.code)
            raise error(e.code, fname, "simulated")

    def dword(x):
        if not isinstance(x, int):
            raise TypeError("an integer is required")
        if not -(1 << 31) <= x < (1 << 31):
            raise OverflowError("Python int too large to convert to C long")
        return x & 0xffffffff

    def udword(x):
        if not isinstance(x, int) or not -(1 << 31) <= x < (1 << 32):
            raise OverflowError("int too large to convert")
        return x & 0xffffffff

    def num(h):
        return h if isinstance(h, int) else int(h)

    con = types.ModuleType("win32con")
    f = types.ModuleType("win32file")
    con.LOCKFILE_EXCLUSIVE_LOCK, con.LOCKFILE_FAIL_IMMEDIATELY, con.FILE_FLAG_WRITE_THROUGH = 2, 1, -2147483648
    f.FILE_BEGIN, f.FILE_CURRENT, f.FILE_END = 0, 1, 2
    f.GENERIC_READ, f.GENERIC_WRITE = -2147483648, 0x40000000
    f.FILE_SHARE_READ, f.FILE_SHARE_WRITE, f.FILE_SHARE_DELETE = 1, 2, 4
    f.CREATE_NEW, f.OPEN_EXISTING, f.OPEN_ALWAYS = 1, 3, 4
    f.FILE_ATTRIBUTE_READONLY, f.FILE_ATTRIBUTE_NORMAL = 1, 128

    def CreateFile(name, access, share, attrs, disposition, flags, template):
        if share != 7:
            raise HarnessError("sharing modes are not simulated")
        inherit = bool(attrs is not None and attrs.bInheritHandle)
        access, flags = udword(access), udword(flags)
        return PyHANDLE(convert("CreateFile", guarded, "open",
                                lambda k, p: k.create_file(p, name, access, disposition, flags, inherit)))

    def ReadFile(h, n, overlapped=None):
        return 0, convert("ReadFile", guarded, "read", lambda k, p: k.read_file(p, num(h), n))

    def WriteFile(h, data, overlapped=None):
        return 0, convert("WriteFile", w_write, num(h), bytes(data))

    def SetFilePointer(h, off, method):
        if not isinstance(off, int) or not -(1 << 63) <= off < (1 << 63):
            raise OverflowError("int too big to convert")
        return convert("SetFilePointer", guarded, "lseek", lambda k, p: k.set_pointer(p, num(h), off, method))

    def SetEndOfFile(h):
        convert("SetEndOfFile", guarded, "ftruncate", lambda k, p: k.set_end(p, num(h)))
        return 1

    def GetFileSize(h):
        return convert("GetFileSize", guarded, "fstat", lambda k, p: len(k.handle(p, num(h)).ofd.inode.data))

    def GetFileInformationByHandle(h):
        i = convert("GetFileInformationByHandle", guarded, "fstat", lambda k, p: k.handle(p, num(h)).ofd.inode)
        n = len(i.data)
        return (128, None, None, None, 0x0a31c0de + i.dev - i.k.dev, n >> 32, n & 0xffffffff, i.nlink, 0x00030000, 0x40000000 | i.ino)

    def LockFileEx(h, flags, low, high, ov):
        convert("LockFileEx", w_lock, num(h), flags, dword(low), dword(high), udword(ov.Offset), udword(ov.OffsetHigh))

    def UnlockFileEx(h, low, high, ov):
        convert("UnlockFileEx", w_unlock, num(h), dword(low), dword(high), udword(ov.Offset), udword(ov.OffsetHigh))

    def CloseHandle(h):
        if isinstance(h, PyHANDLE):
            return h.Close()
        convert("CloseHandle", w_close, h)

    def FlushFileBuffers(h):
        convert("FlushFileBuffers", w_flush, num(h))

    for x in (CreateFile, ReadFile, WriteFile, SetFilePointer, SetEndOfFile, GetFileSize, GetFileInformationByHandle,
              LockFileEx, UnlockFileEx, CloseHandle, FlushFileBuffers):
        setattr(f, x.__name__, x)
    f.error = error
    api = types.ModuleType("win32api")
    api.error = error
    api.GetLastError = get_last
    api.GetCurrentProcess = lambda: -1

    def DuplicateHandle(source, h, target, access, inherit, options):
        if source != -1 or target != -1 or options != 2:
            raise HarnessError("handles of other processes are not simulated")
        return PyHANDLE(convert("DuplicateHandle", guarded, "dup", lambda k, p: k.duplicate(p, num(h), inherit)))
    api.DuplicateHandle = DuplicateHandle
    con.DUPLICATE_SAME_ACCESS = 2
    return {"pywintypes": wt, "win32con": con, "win32file": f, "win32api": api}


def install(platform, make_os):
    fk = platform.fakes
    fk["os"] = make_winos(make_os)
    fk["nt"] = fk["os"]
    fk["sys"] = make_sys()
    fk["msvcrt"] = make_msvcrt()
    fk["posixpath"] = fk["os"].path
    wintypes = make_wintypes()
    fk["ctypes"] = make_ctypes(wintypes)
    platform.blocked |= {"fcntl", "posix"}
    if platform.flavour == "win-pywin32":
        fk.update(make_pywin32())
    else:
        platform.blocked |= {"win32con", "win32api", "win32file", "pywintypes"}
