"""A small simulated POSIX kernel: files, descriptors, range locks, pipes, processes, stable storage."""
import errno as E
import os
import stat

from .sched import NS, SimKill, HarnessError

ACC = os.O_ACCMODE
INF = None
OFFMAX = (1 << 63) - 1
MAXSIZE = 1 << 22  # largest file (EFBIG beyond), keeps memory bounded


def err(no, path=None):
    if path is None:
        return OSError(no, os.strerror(no))
    return OSError(no, os.strerror(no), path)


class Inode:
    def __init__(self, kernel, kind, mode):
        self.k, self.ino, self.kind, self.mode = kernel, kernel.new_number(), kind, mode
        self.dev = kernel.dev
        self.data = bytearray()
        self.nlink = 0
        self.uid = 0
        self.locks = []     # [pid, start, end(None: infinity), exclusive]
        self.waiters = []   # (task, pid, blocker pid)
        self.atime = self.mtime = self.ctime = kernel.wall()
        self.version = 0
        self.seen_size = self.resizes = 0
        # stable storage
        self.dur = bytearray()
        self.journal = []   # ("w", off, bytes) / ("t", size), in order; not yet on stable storage
        self.devcache = []  # handed to the device, not yet on the platter (platforms with full flush only)
        self.dur_mtime = self.mtime
        self.wb_error = 0   # counter of write-back errors
        # pipes
        self.readers = self.writers = 0
        self.rwait, self.wwait, self.owait = [], [], []
        self.ropens = self.wopens = 0
        self.capacity = 65536
        # history of sizes/writes for oracles
        self.writes = None  # list, if an oracle wants it
        self.past = None    # likewise: (size, access time, modification time) since it started to look

    def touch_m(self):
        self.mtime = self.ctime = self.k.wall()
        self.version += 1
        if len(self.data) != self.seen_size:
            self.seen_size = len(self.data)
            self.resizes += 1
        self.note()

    def note(self):
        if self.past is not None:
            self.past.append((len(self.data), self.atime, self.mtime))


class OFD:
    __slots__ = ("inode", "pos", "flags", "refs", "wb_seen", "path", "pipe_end")

    def __init__(self, inode, flags, path=None):
        self.inode, self.flags, self.pos, self.refs, self.path = inode, flags, 0, 0, path
        self.wb_seen = inode.wb_error
        self.pipe_end = None

    @property
    def readable(self):
        return self.flags & ACC in (os.O_RDONLY, os.O_RDWR)

    @property
    def writable(self):
        return self.flags & ACC in (os.O_WRONLY, os.O_RDWR)


class Fd:
    __slots__ = ("ofd", "cloexec", "origin", "gen", "touched", "by")

    def __init__(self, ofd, cloexec, origin, gen):
        self.ofd, self.cloexec, self.origin, self.gen = ofd, cloexec, origin, gen
        self.touched = False
        self.by = None       # the operation which opened it


class Process:
    def __init__(self, kernel, pid, parent=None):
        self.k, self.pid, self.parent = kernel, pid, parent
        self.fds = {}
        self.dead = False
        self.umask = 0o022
        self.uid = 0
        self.name = "p%d" % pid
        self.closed_log = []   # (fd, gen, origin) of every close
        self.opened = []       # gens opened
        self.bad_closes = []   # descriptors closed although not open
        self.rs = None         # rsfile package instance
        self.children = 0
        self.in_library = 0    # library calls in flight
        self.at_fork = []
        self.survives = False  # a machine crash does not concern it (it runs afterwards)

    def kill(self):
        if self.dead:
            return
        self.dead = True
        if self.k.on_kill:
            self.k.on_kill(self)
        for t in self.k.sched.tasks:
            if t.proc is self and t.state != "done":
                t.state = "dead"
        self.k.exit(self)


class Kernel:
    def __init__(self, sched, cfg=None):
        cfg = cfg or {}
        self.cfg = cfg
        self.sched = sched
        self.next_ino = 100
        self.freed = []        # files without a name any more: their numbers serve again once nobody has them open
        self.next_pid = 1000
        self.dev = 64769
        self.names = {}
        self.procs = []
        self.gen = 0
        self.blksize = cfg.get("blksize", 4096)
        self.capacity = cfg.get("capacity")
        self.pipe_buf = 8                                 # PIPE_BUF, scaled down like the capacities of pipes
        self.nb_errno = cfg.get("nb_errno", E.EAGAIN)
        self.fullfsync = cfg.get("fullfsync", False)      # platform with F_FULLFSYNC and a volatile device cache
        self.gate = cfg.get("gate", True)                 # failed write-back marks pages clean (as Linux does)
        self.ftrunc_extends = cfg.get("ftrunc_extends", True)
        self.root = Inode(self, "d", stat.S_IFDIR | 0o755)
        for d in ("/", "/sim", "/sim/sub"):
            i = Inode(self, "d", stat.S_IFDIR | 0o755)
            i.nlink = 2
            self.names[d] = i
        i = Inode(self, "c", stat.S_IFCHR | 0o666)
        self.names["/dev/null"] = i
        self.null = i
        self.lock_listeners = []
        self.on_kill = None
        self.on_install = None  # monitor of new descriptors
        self.on_create = None   # monitor of new names
        self.on_unlink = None
        self.on_size = None     # monitor of changes of size by open() or ftruncate()
        self.on_write = None    # monitor of writes to regular files
        self.on_get = None      # monitor of descriptor uses
        self.on_pipe = None     # monitor of pipes

    # ---- clocks, processes
    def wall(self):
        return self.sched.now + self.sched.wall_skew

    def new_number(self):
        for i in self.freed:
            if not any(f.ofd.inode is i for p in self.procs for f in p.fds.values()):
                self.freed.remove(i)
                return i.ino
        self.next_ino += 1
        return self.next_ino

    def new_process(self, parent=None, std=(0, 1, 2)):
        self.next_pid += 1
        p = Process(self, self.next_pid, parent)
        for fd in std:
            self._install(p, OFD(self.null, os.O_RDWR, "/dev/null"), False, "std", fd)
        self.procs.append(p)
        return p

    def exit(self, proc):
        proc.dead = True
        for fd in list(proc.fds):
            self._drop(proc, fd)
        for ino in self.all_inodes():
            self._unlock_all(ino, proc.pid)

    def all_inodes(self):
        seen = {}
        for i in self.names.values():
            seen[i.dev, i.ino] = i
        for p in self.procs:
            for f in p.fds.values():
                i = f.ofd.inode
                seen[i.dev, i.ino] = i
        return seen.values()

    def fork(self, proc):
        self.next_pid += 1
        c = Process(self, self.next_pid, proc)
        c.umask, c.uid = proc.umask, proc.uid
        for fd, f in proc.fds.items():
            self.gen += 1
            n = Fd(f.ofd, f.cloexec, f.origin, self.gen)
            f.ofd.refs += 1
            c.fds[fd] = n
        self.procs.append(c)
        return c

    def exec_view(self, proc):
        """Descriptors a program executed now (fork+exec) would inherit."""
        return {fd: f for fd, f in proc.fds.items() if not f.cloexec}

    # ---- descriptors
    def _install(self, proc, ofd, cloexec, origin, fd=None):
        if fd is None:
            fd = 0
            while fd in proc.fds:
                fd += 1
        self.gen += 1
        proc.fds[fd] = Fd(ofd, cloexec, origin, self.gen)
        proc.opened.append((self.gen, fd, origin))
        if self.on_install:
            self.on_install(proc.fds[fd])
        ofd.refs += 1
        return fd

    def _get(self, proc, fd):
        if isinstance(fd, bool):
            fd = int(fd)
        if not isinstance(fd, int):
            if hasattr(fd, "__index__"):
                fd = fd.__index__()
            else:
                raise TypeError("an integer is required (got type %s)" % type(fd).__name__)
        if fd >= 2 ** 31 or fd < -2 ** 31:
            raise OverflowError("Python int too large to convert to C int")
        f = proc.fds.get(fd)
        if self.on_get is not None:
            self.on_get(proc, fd, f)
        if f is None:
            raise err(E.EBADF)
        return f

    def _drop(self, proc, fd):
        f = proc.fds.pop(fd)
        ofd = f.ofd
        ino = ofd.inode
        if ino.kind == "f":
            self._unlock_all(ino, proc.pid)  # POSIX: closing any descriptor of the file drops every lock
        ofd.refs -= 1
        if ofd.refs == 0 and ofd.pipe_end:
            if "r" in ofd.pipe_end:
                ino.readers -= 1
                self._wake(ino.wwait)
            if "w" in ofd.pipe_end:
                ino.writers -= 1
                self._wake(ino.rwait)

    def _wake(self, lst):
        ts = lst[:]
        del lst[:]
        for t in ts:
            self.sched.wake(t)

    def close(self, proc, fd):
        f = self._get(proc, fd)
        proc.closed_log.append((fd, f.gen, f.origin))
        self._drop(proc, fd)

    def dup(self, proc, fd, origin="dup"):
        f = self._get(proc, fd)
        return self._install(proc, f.ofd, True, origin)

    # ---- names
    def norm(self, path):
        if isinstance(path, int) and not isinstance(path, bool):
            raise HarnessError("path by descriptor")
        p = os.fsdecode(path)
        if "\0" in p:
            raise ValueError("embedded null byte")
        if not p:
            return None
        return os.path.normpath(os.path.join("/sim", p.removesuffix("\udcff")))

    def lookup(self, path):
        p = self.norm(path)
        if p is None:
            raise err(E.ENOENT, path)
        i = self.names.get(p)
        if i is None:
            par = self.names.get(os.path.dirname(p))
            if par is not None and par.kind != "d":
                raise err(E.ENOTDIR, path)
            raise err(E.ENOENT, path)
        return i

    def mkfile(self, path, data=b"", mode=0o644):
        """Harness: a file present (and durable) from the start."""
        i = Inode(self, "f", stat.S_IFREG | mode)
        i.nlink = 1
        i.data[:] = data
        i.dur[:] = data
        i.seen_size = len(data)
        self.names[self.norm(path)] = i
        return i

    def mkfifo(self, path):
        i = Inode(self, "p", stat.S_IFIFO | 0o644)
        i.nlink = 1
        self.names[self.norm(path)] = i
        return i

    def open(self, proc, path, flags, mode=0o777, origin="lib"):
        p = self.norm(path)
        if p is None:
            raise err(E.ENOENT, path)
        cfg_max = self.cfg.get("maxfds", 1024)
        if len(proc.fds) >= cfg_max:
            raise err(E.EMFILE, path)
        i = self.names.get(p)
        if i is None:
            par = self.names.get(os.path.dirname(p))
            if par is None:
                raise err(E.ENOENT, path)
            if par.kind != "d":
                raise err(E.ENOTDIR, path)
            if not flags & os.O_CREAT:
                raise err(E.ENOENT, path)
            if str(path).endswith("/"):
                raise err(E.EISDIR, path)
            if not isinstance(mode, int):
                raise TypeError("an integer is required")
            i = Inode(self, "f", stat.S_IFREG | (mode & 0o7777 & ~proc.umask))
            i.uid = proc.uid
            i.nlink = 1
            self.names[p] = i
            created = True
            if self.on_create:
                self.on_create(proc, p, i)
        else:
            created = False
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(E.EEXIST, path)
            if i.kind == "d" and (flags & ACC != os.O_RDONLY or flags & os.O_CREAT):
                raise err(E.EISDIR, path)
            if proc.uid != 0 and i.kind == "f":
                bits = (i.mode >> 6) & 7 if i.uid == proc.uid else i.mode & 7
                need = {os.O_RDONLY: 4, os.O_WRONLY: 2, os.O_RDWR: 6}[flags & ACC]
                if bits & need != need:
                    raise err(E.EACCES, path)
            if flags & os.O_DIRECTORY and i.kind != "d":
                raise err(E.ENOTDIR, path)
        if i.kind == "p":
            return self._open_fifo(proc, p, i, flags, origin)
        ofd = OFD(i, flags & ~(os.O_CREAT | os.O_EXCL | os.O_TRUNC | os.O_CLOEXEC), p)
        if flags & os.O_TRUNC and i.kind == "f" and not created and ofd.writable:
            self._set_size(i, 0)
        return self._install(proc, ofd, True, origin)  # python opens descriptors non-inheritable, atomically

    def _open_fifo(self, proc, path, i, flags, origin):
        ofd = OFD(i, flags & ~(os.O_CREAT | os.O_EXCL | os.O_TRUNC | os.O_CLOEXEC), path)
        ofd.pipe_end = {os.O_RDONLY: "r", os.O_WRONLY: "w", os.O_RDWR: "rw"}[flags & ACC]
        r, w = "r" in ofd.pipe_end, "w" in ofd.pipe_end
        if w and not r and not i.readers and flags & os.O_NONBLOCK:
            raise err(E.ENXIO, path)
        i.readers += r
        i.writers += w
        i.ropens += r
        i.wopens += w
        self._wake(i.owait)
        seen = i.wopens if r else i.ropens   # an opening of the other end, even one that is closed again, lets us through
        while not (r and w) and not flags & os.O_NONBLOCK:
            if (i.writers if r else i.readers) or (i.wopens if r else i.ropens) != seen:
                break
            i.owait.append(self.sched.task())
            try:
                self.sched.block("fifo open", interruptible=True)
            except BaseException:
                i.readers -= r
                i.writers -= w
                raise
        return self._install(proc, ofd, True, origin)

    def unlink(self, proc, path):
        i = self.lookup(path)
        if i.kind == "d":
            raise err(E.EISDIR, path)
        del self.names[self.norm(path)]
        if self.on_unlink:
            self.on_unlink(self.norm(path))
        self._unlinked(i)

    def _unlinked(self, i):
        i.nlink -= 1
        if not i.nlink:
            self.freed.append(i)

    def link(self, proc, a, b):
        i = self.lookup(a)
        if self.norm(b) in self.names:
            raise err(E.EEXIST, b)
        self.names[self.norm(b)] = i
        i.nlink += 1

    def rename(self, proc, a, b):
        i = self.lookup(a)
        pb = self.norm(b)
        if pb is None or os.path.dirname(pb) not in self.names:
            raise err(E.ENOENT, b)
        old = self.names.get(pb)
        if old is i:
            return
        if old is not None:
            self._unlinked(old)
        del self.names[self.norm(a)]
        self.names[pb] = i

    def stat_of(self, i):
        blk = self.blksize
        at, mt, ct = i.atime / NS, i.mtime / NS, i.ctime / NS
        return os.stat_result(
            (i.mode, i.ino, i.dev, i.nlink, i.uid, 0, len(i.data) if i.kind == "f" else 0, int(at), int(mt), int(ct)),
            {"st_atime": at, "st_mtime": mt, "st_ctime": ct, "st_atime_ns": i.atime, "st_mtime_ns": i.mtime,
             "st_ctime_ns": i.ctime, "st_blksize": blk, "st_blocks": (len(i.data) + 511) // 512, "st_rdev": 0})

    def fstat(self, proc, fd):
        return self.stat_of(self._get(proc, fd).ofd.inode)

    # ---- data
    def _room(self, i, end):
        """How far the file may grow towards end, given free space."""
        if self.capacity is None or end <= len(i.data):
            return end
        used = sum(len(x.data) for x in self.all_inodes() if x.kind == "f")
        return min(end, len(i.data) + max(0, self.capacity - used))

    def _set_size(self, i, size):
        cur = len(i.data)
        if self.on_size:
            self.on_size(i, size)
        if size < cur:
            del i.data[size:]
        else:
            i.data.extend(bytes(size - cur))
        i.journal.append(("t", size))
        i.touch_m()
        if i.writes is not None:
            i.writes.append(("t", size))

    def lseek(self, proc, fd, off, whence):
        f = self._get(proc, fd)
        i = f.ofd.inode
        if not isinstance(off, int):
            off = off.__index__()
        if off > OFFMAX or off < -OFFMAX - 1:
            raise OverflowError("Python int too large to convert to C long")
        if i.kind == "p":
            raise err(E.ESPIPE)
        if whence == os.SEEK_SET:
            n = off
        elif whence == os.SEEK_CUR:
            n = f.ofd.pos + off
        elif whence == os.SEEK_END:
            n = len(i.data) + off
        else:
            raise err(E.EINVAL)
        if n < 0 or n > OFFMAX:
            raise err(E.EINVAL)
        f.ofd.pos = n
        return n

    def read(self, proc, fd, n, short=None, pos=None):
        f = self._get(proc, fd)
        ofd, i = f.ofd, f.ofd.inode
        if n < 0:
            raise err(E.EINVAL)
        if not ofd.readable:
            raise err(E.EBADF)
        if i.kind == "d":
            raise err(E.EISDIR)
        if i.kind == "c":
            self._note_pipe("eof", i)
            return b""
        if i.kind == "p":
            return self._pipe_read(ofd, i, n, short)
        if short is not None and n > 1:
            n = max(1, min(n, (min(n, max(1, len(i.data) - (ofd.pos if pos is None else pos))) * short) // 1000))
        at = ofd.pos if pos is None else pos
        d = bytes(i.data[at:at + n])
        if pos is None:
            ofd.pos += len(d)
        i.atime = self.wall()
        i.note()
        return d

    def write(self, proc, fd, data, short=None, pos=None):
        f = self._get(proc, fd)
        ofd, i = f.ofd, f.ofd.inode
        if not ofd.writable:
            raise err(E.EBADF)
        data = bytes(data)
        if i.kind == "c":
            return len(data)
        if i.kind == "p":
            return self._pipe_write(ofd, i, data, short)
        n = len(data)
        if short is not None and n > 1:
            n = max(1, n * short // 1000)
        if ofd.flags & os.O_APPEND:
            at = len(i.data)
        else:
            at = ofd.pos if pos is None else pos
        if n == 0:
            return 0
        if at + n > MAXSIZE:
            n = MAXSIZE - at
            if n <= 0:
                raise err(E.EFBIG)
        end = self._room(i, at + n)
        if end <= at:
            raise err(E.ENOSPC)
        n = end - at
        data = data[:n]
        if self.on_write:
            self.on_write(proc, ofd, i, at, data)
        if at > len(i.data):
            i.data.extend(bytes(at - len(i.data)))
        i.data[at:at + n] = data
        if pos is None:
            ofd.pos = at + n
        i.touch_m()
        i.journal.append(("w", at, data))
        if i.writes is not None:
            i.writes.append(("w", at, data, proc.pid))
        if ofd.flags & os.O_SYNC == os.O_SYNC:
            self._durable_write(i, at, data, True)
        elif ofd.flags & os.O_DSYNC:
            self._durable_write(i, at, data, False)
        return n

    def ftruncate(self, proc, fd, size):
        f = self._get(proc, fd)
        if size > OFFMAX or size < -OFFMAX - 1:
            raise OverflowError("Python int too large to convert to C long")
        if size < 0 or f.ofd.inode.kind != "f" or not f.ofd.writable:
            raise err(E.EINVAL)
        if size > MAXSIZE:
            raise err(E.EFBIG)
        i = f.ofd.inode
        if size > len(i.data) and not self.ftrunc_extends:
            return  # file systems where ftruncate cannot extend: silently no effect
        self._set_size(i, size)
        if f.ofd.flags & os.O_SYNC == os.O_SYNC:
            self._flush_all(i, True)

    # ---- stable storage
    @staticmethod
    def _apply(img, e):
        if e[0] == "w":
            _, off, d = e
            if off > len(img):
                img.extend(bytes(off - len(img)))
            img[off:off + len(d)] = d
        else:
            if e[1] < len(img):
                del img[e[1]:]
            else:
                img.extend(bytes(e[1] - len(img)))

    def _flush_all(self, i, metadata):
        if self.fullfsync:
            i.devcache.extend(i.journal)
        else:
            for e in i.journal:
                self._apply(i.dur, e)
        del i.journal[:]
        if metadata:
            i.dur_mtime = i.mtime

    def _durable_write(self, i, at, data, metadata):
        # a synchronous write: simplest sound model, it flushes whatever is pending on the file
        self._flush_all(i, metadata)

    def fsync(self, proc, fd, datasync=False):
        f = self._get(proc, fd)
        i = f.ofd.inode
        if i.kind != "f":
            raise err(E.EINVAL)
        if f.ofd.wb_seen < i.wb_error:  # an earlier write-back error is reported once per open file
            f.ofd.wb_seen = i.wb_error
            self._flush_all(i, not datasync)
            raise err(E.EIO)
        self._flush_all(i, not datasync)

    def full_fsync(self, proc, fd):
        f = self._get(proc, fd)
        i = f.ofd.inode
        if i.kind != "f":
            raise err(E.ENOTSUP)
        self._flush_all(i, True)
        for e in i.devcache:
            self._apply(i.dur, e)
        del i.devcache[:]

    def fail_sync(self, proc, fd, no):
        """A sync call that fails: the data does not reach stable storage."""
        f = self._get(proc, fd)
        i = f.ofd.inode
        if i.kind == "f" and no == E.EIO and self.gate:
            # the kernel reports the error once and marks the pages clean: they will never be written
            del i.journal[:]
            i.wb_error += 1
            f.ofd.wb_seen = i.wb_error
        raise err(no)

    def crash(self, rng, power=True):
        """The machine stops. Any subset of the pending changes, torn at 4-byte granularity, reached the platter."""
        for p in self.procs:
            if not p.dead and not p.survives:
                p.dead = True
                for t in self.sched.tasks:
                    if t.proc is p and t.state != "done":
                        t.state = "dead"
                p.fds = {}
        for i in self.all_inodes():
            del i.locks[:]
            del i.waiters[:]
            if i.kind != "f":
                continue
            img = i.dur
            if not power:  # a kernel panic: what the device holds is not lost
                for e in i.devcache:
                    self._apply(img, e)
                pend = i.journal
            else:
                pend = i.devcache + i.journal
            for e in pend:
                if e[0] == "t":
                    if rng.random() < 0.5:
                        self._apply(img, e)
                else:
                    _, off, d = e
                    mode = rng.random()
                    for j in range(0, len(d), 4):
                        if mode < 0.4 or (mode < 0.7 and rng.random() < 0.5):
                            self._apply(img, ("w", off + j, d[j:j + 4]))
            if i.dur_mtime != i.mtime and rng.random() < 0.5:
                pass
            i.data = bytearray(img)
            i.mtime = i.dur_mtime
            i.journal, i.devcache = [], []

    # ---- pipes
    def pipe(self, proc, capacity=65536, origin="pipe"):
        i = Inode(self, "p", stat.S_IFIFO | 0o600)
        i.capacity = capacity
        r, w = OFD(i, os.O_RDONLY), OFD(i, os.O_WRONLY)
        r.pipe_end, w.pipe_end = "r", "w"
        i.readers = i.writers = 1
        return self._install(proc, r, True, origin), self._install(proc, w, True, origin)

    def _note_pipe(self, what, i, data=None):
        if self.on_pipe:
            self.on_pipe(what, i, data)

    def _pipe_read(self, ofd, i, n, short):
        if n == 0:
            return b""
        while True:
            if i.data:
                if short is not None:
                    n = max(1, min(n, len(i.data)) * short // 1000)
                d = bytes(i.data[:n])
                del i.data[:n]
                self._wake(i.wwait)
                self._note_pipe("out", i, d)
                return d
            if i.writers == 0:
                self._note_pipe("eof", i)
                return b""
            if ofd.flags & os.O_NONBLOCK:
                self._note_pipe("again", i)
                raise err(E.EAGAIN)
            i.rwait.append(self.sched.task())
            self.sched.block("pipe read", interruptible=True)

    def _pipe_write(self, ofd, i, data, short):
        done = 0
        total = len(data)
        if short is not None and total > 1:    # (as when a signal interrupts the transfer)
            total = max(1, total * short // 1000)
        while True:
            if i.readers == 0:
                if done:
                    return done
                self._note_pipe("broken", i)
                raise err(E.EPIPE)
            if not data:
                return 0
            free = i.capacity - len(i.data)
            if ofd.flags & os.O_NONBLOCK:
                if free <= 0 or (len(data) <= self.pipe_buf and free < len(data)):
                    self._note_pipe("again", i)
                    raise err(E.EAGAIN)
                n = min(free, total)
                i.data.extend(data[:n])
                self._note_pipe("in", i, data[:n])
                self._wake(i.rwait)
                return n
            need = total if total <= self.pipe_buf else 1    # small writes are atomic
            if free >= need:
                n = min(free, total - done)
                i.data.extend(data[done:done + n])
                self._note_pipe("in", i, data[done:done + n])
                done += n
                self._wake(i.rwait)
                if done == total:
                    return done
                continue
            i.wwait.append(self.sched.task())
            self.sched.block("pipe write")

    # ---- POSIX range locks
    @staticmethod
    def overlap(s1, e1, s2, e2):
        return (e2 is None or s1 < e2) and (e1 is None or s2 < e1)

    def conflicts(self, i, pid, start, end, excl):
        return [l for l in i.locks if l[0] != pid and (excl or l[3]) and self.overlap(l[1], l[2], start, end)]

    def _carve(self, i, pid, start, end):
        out = []
        changed = False
        for l in i.locks:
            p, s, e, x = l
            if p != pid or not self.overlap(s, e, start, end):
                out.append(l)
                continue
            changed = True
            if s < start:
                out.append([p, s, start, x])
            if end is not None and (e is None or e > end):
                out.append([p, end, e, x])
        i.locks[:] = out
        return changed

    def _wake_lockers(self, i):
        ws = i.waiters[:]
        del i.waiters[:]
        for w in ws:
            self.sched.wake(w[0])

    def _unlock_all(self, i, pid):
        n = len(i.locks)
        i.locks[:] = [l for l in i.locks if l[0] != pid]
        if len(i.locks) != n:
            self._wake_lockers(i)

    def _deadlock(self, pid, blocker):
        for _ in range(10):
            nxt = None
            for i in self.all_inodes():
                for w in i.waiters:
                    if w[1] == blocker and w[0].state == "blocked":
                        nxt = w[2]
                        break
                if nxt is not None:
                    break
            if nxt is None:
                return False
            if nxt == pid:
                return True
            blocker = nxt
        return False

    def range_of(self, f, length, start, whence):
        i = f.ofd.inode
        for v in (length, start):
            if not isinstance(v, int):
                raise TypeError("an integer is required")
            if v > OFFMAX or v < -OFFMAX - 1:
                raise OverflowError("Python int too large to convert to C long")
        if whence == os.SEEK_CUR:
            start += f.ofd.pos
        elif whence == os.SEEK_END:
            start += len(i.data)
        elif whence != os.SEEK_SET:
            raise err(E.EINVAL)
        if length > 0:
            end = start + length
            if end - 1 > OFFMAX:
                raise err(E.EOVERFLOW)
            if end > OFFMAX:
                end = None
        elif length == 0:
            end = None
        else:
            end = start
            start = start + length
        if start < 0:
            raise err(E.EINVAL)
        return start, end

    def lockf(self, proc, fd, kind, nonblock, length, start, whence):
        """kind: 'R', 'W' or None (unlock)."""
        f = self._get(proc, fd)
        i = f.ofd.inode
        s, e = self.range_of(f, length, start, whence)
        if kind is None:
            if self._carve(i, proc.pid, s, e):
                self._wake_lockers(i)
            return
        if (kind == "R" and not f.ofd.readable) or (kind == "W" and not f.ofd.writable):
            raise err(E.EBADF)
        excl = kind == "W"
        while True:
            c = self.conflicts(i, proc.pid, s, e, excl)
            if not c:
                had = self._carve(i, proc.pid, s, e)
                i.locks.append([proc.pid, s, e, excl])
                if had and not excl:
                    self._wake_lockers(i)  # a downgrade may let others in
                return
            if nonblock:
                raise err(self.nb_errno)
            if self._deadlock(proc.pid, c[0][0]):
                raise err(E.EDEADLK)
            t = self.sched.task()
            w = (t, proc.pid, c[0][0])
            i.waiters.append(w)
            try:
                self.sched.block("kernel lock", interruptible=True)
            finally:
                if w in i.waiters:
                    i.waiters.remove(w)
            if proc.fds.get(fd) is not f:
                # the descriptor was closed by another thread while waiting: Linux grants, then notices and drops it
                raise err(E.EBADF)

    def would_refuse(self, i, alien_pid, start, end, excl):
        """Would an unrelated process be refused this lock now?"""
        return bool(self.conflicts(i, alien_pid, start, end, excl))

    def held_cover(self, i, pid, start, end, excl):
        """Is every byte of the range locked by pid, at least as strongly?"""
        segs = sorted([(l[1], l[2]) for l in i.locks if l[0] == pid and (l[3] or not excl)], key=lambda x: x[0])
        at = start
        for s, e in segs:
            if s > at:
                break
            if e is None:
                return True
            if e > at:
                at = e
            if end is not None and at >= end:
                return True
        return end is not None and at >= end
