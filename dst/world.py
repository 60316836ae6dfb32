"""One simulated run: processes, tasks and the operations they perform on the library; history; monitors."""
import array
import errno as E
import gc
import os
import pathlib
import random
import weakref

from . import seam, twin
from .fork import fork_process
from .kernel import Kernel
from .sched import NS, Chooser, HarnessError, Scheduler, SimAbort, SimInterrupt, SimKill

OPENERS = ("open", "wrap", "rawio", "read_file", "write_file", "append_file")


class BodyError(Exception):
    """Raised by generated programs inside with-blocks."""


class Rec:
    """One operation of the history."""
    __slots__ = ("task", "proc", "id", "op", "a", "inv", "ret", "t0", "t1", "exc", "val", "skipped", "info")

    def __init__(self, task, proc, a):
        self.task, self.proc, self.id, self.op, self.a = task, proc, a["id"], a["op"], a
        self.inv = self.ret = self.t0 = self.t1 = self.exc = self.val = None
        self.skipped = False
        self.info = {}

    @property
    def ok(self):
        return self.ret is not None and self.exc is None and not self.skipped

    def show(self):
        a = " ".join("%s=%r" % (k, v) for k, v in self.a.items() if k not in ("id", "op", "body", "task", "fixed"))
        if self.skipped:
            r = "skipped"
        elif self.ret is None:
            r = "never returned"
        elif self.exc:
            r = "raised %s" % (self.exc,)
        else:
            v = repr(self.val)
            r = "-> " + (v if len(v) < 120 else v[:117] + "...")
        return "[%s..%s] %s/%s #%s %s %s %s" % (self.inv, self.ret, self.proc, self.task, self.id, self.op, a, r)


class Box:
    """A library stream held by a simulated process."""

    def __init__(self, obj, var, pname, proc, path, mode, wrapped=False, closefd=True):
        self.obj, self.var, self.pname, self.proc, self.path, self.mode = obj, var, pname, proc, path, mode
        self.closed = False
        self.inode = None
        self.fd = self.fdgen = None
        self.wrapped, self.closefd = wrapped, closefd
        self.opened_by = self.opener = None
        self.key = None
        self.meta = {}


class Violation(Exception):
    pass


class World:
    def __init__(self, program, chooser, monitors=(), max_time=None):
        self.program = program
        cfg = program.get("cfg", {})
        self.cfg = cfg
        self.on_fault = None
        self.sched = Scheduler(chooser, max_points=cfg.get("max_points", 40_000),
                               max_time=None if max_time is None else 1_000 * NS + max_time * NS)
        self.windows = cfg.get("flavour", "linux").startswith("win")
        if self.windows:
            from .winsim import WinKernel
            self.kernel = WinKernel(self.sched, cfg.get("kernel"))
        else:
            self.kernel = Kernel(self.sched, cfg.get("kernel"))
        self.kernel.on_kill = self.proc_killed
        self.platform = seam.Platform.get(cfg.get("flavour", "linux"), bool(cfg.get("lines")))
        self.boot_proc = None
        self.procs = {}
        self.boxes = {}
        self.dead_boxes = []
        self.history = []
        self.monitors = list(monitors)
        self.violation = None
        self.twins = []
        self.known_sigs, self.known_hits = set(), {}
        self.tick = 0
        self.opcount = 0
        self.nbox = 0
        self.sleeps = []
        self.sync_faults = []
        self.inflight = {}
        self.forks = 0
        self.collecting = False
        seam.set_sim(self)
        for path, data in program.get("files", {}).items():
            self.kernel.mkfile(path, data.encode("latin-1"))
        for b, a in cfg.get("links", {}).items():     # other names of the same file
            self.kernel.names.pop(self.kernel.norm(b), None)
            self.kernel.link(None, a, b)
        for b, a in cfg.get("twins", {}).items():     # files on other devices which happen to have the same number
            i = self.kernel.lookup(b)
            i.ino, i.dev = self.kernel.lookup(a).ino, i.dev + 1
        for pname in program.get("procs", ["P0"]):
            self.new_proc(pname)
        for d in cfg.get("pipes", ()):
            self.new_pipe(**d)
        for d in cfg.get("fifos", ()):
            self.kernel.mkfifo(d["path"]).capacity = d["cap"]
        self.crash_at = cfg.get("crash", {}).get("at")
        self.crashed = False
        if self.crash_at is not None:
            self.new_proc("R").survives = True     # runs after the crash
            self.syscalls = 0
            self.sched.hooks.append(self.maybe_crash)
        for m in self.monitors:
            m.world = self
            if hasattr(m, "start"):
                m.start()
            if hasattr(m, "on_syscall"):
                self.sched.hooks.append(m.on_syscall)

    # ---- notes from the seam
    def note_sleep(self, t, secs):
        self.sleeps.append((t.name, t.op, secs, self.sched.now))

    def note_wait(self, t, timeout):
        pass

    def note_sync(self, t, name, f):
        self.sync_faults.append((t.name, t.op, name, f[1]))

    # ---- processes and tasks
    def new_proc(self, pname):
        std = self.cfg.get("std", {}).get(pname, [0, 1, 2])
        p = self.kernel.new_process(std=tuple(std))
        p.name = pname
        if "umask" in self.cfg:
            p.umask = self.cfg["umask"]
        self.boot_proc = p
        p.rs = seam.Package(self.platform)
        p.rs.rs
        self.boot_proc = None
        self.procs[pname] = p
        opts = self.cfg.get("options")
        if opts:
            try:
                p.rs.rs.set_rsfile_options(**opts)
            except Exception as e:
                self.violation = self.violation or ("options refused", "set_rsfile_options(%s): %r" % (opts, e))
        p.options = dict(DEFAULTS, **(opts or {}))
        return p

    def new_pipe(self, name, cap, r, w, nb_r=False, nb_w=False, inheritable=False):
        """A pipe; process r gets its reading end (known as <name>r) and process w its writing end (<name>w)."""
        p = self.procs[r]
        rfd, wfd = self.kernel.pipe(p, cap, "harness")
        if w != r:
            q = self.procs[w]
            f = p.fds.pop(wfd)
            fd = self.kernel._install(q, f.ofd, True, "harness")
            f.ofd.refs -= 1
            wfd = fd
        for pn, fd, suffix, nb in ((r, rfd, "r", nb_r), (w, wfd, "w", nb_w)):
            p = self.procs[pn]
            if not hasattr(p, "hfds"):
                p.hfds = {}
            p.hfds[name + suffix] = fd
            if nb:
                p.fds[fd].ofd.flags |= os.O_NONBLOCK

    def maybe_crash(self, t, name):
        """The machine stops just after its Nth kernel call."""
        if t.harness:
            return
        self.syscalls += 1
        if self.syscalls != self.crash_at:
            return
        c = self.cfg["crash"]
        self.crashed = True
        self.sched.count("machine crash (%s)" % ("power" if c["power"] else "kernel"))
        t.harness += 1
        for m in self.monitors:
            if hasattr(m, "crashing"):
                m.crashing()
        self.kernel.crash(random.Random(c["seed"]), c["power"])
        self.inflight.clear()
        for m in self.monitors:
            if hasattr(m, "crashed"):
                m.crashed(c["power"])
        for td in self.program["tasks"]:
            if td.get("after_crash"):
                self.start_task(td, self.procs["R"])
        raise SimKill

    def proc_killed(self, p):
        for m in self.monitors:
            if hasattr(m, "killed"):
                m.killed(p)
        for n, r in list(self.inflight.items()):
            if r.proc == p.name:
                del self.inflight[n]

    def fail(self, sig, text):
        """The property does not hold: ends the run."""
        if self.violation is None:
            self.violation = (sig, text)
        if self.sched.current is not None:
            self.sched.stop("violation")

    def known(self, sig, text):
        """A violation with the precise signature of a recorded finding is counted; any other one ends the run."""
        if sig in self.known_sigs:
            self.known_hits[sig] = self.known_hits.get(sig, 0) + 1
            return True
        self.fail(sig, text)
        return False

    def run(self):
        for td in self.program["tasks"]:
            if not td.get("after_crash"):
                self.start_task(td, self.procs[td["proc"]])
        self.sched.run()
        return self.sched.status

    def start_task(self, td, proc, pre=None):
        ops = td["ops"]

        def main(t):
            t.ident = ident
            if td.get("start"):
                t.set_op("start")
                self.sched.block("start", self.sched.now + int(td["start"] * NS))
            for a in ops:
                self.do(t, a)
            if not self.cfg.get("noautoclose"):
                self.autoclose(t)
            for h in td.get("ends", ()):
                self.do(t, {"id": "z" + h, "op": "hclose", "fd": h})

        ident = 7000 + len(self.sched.tasks)
        t = self.sched.spawn(td["name"], proc, main)
        t.ident = ident
        return t

    def autoclose(self, t):
        """Programs end by closing what they opened (so that nobody waits for a lock for ever)."""
        for t2, v, p in reversed(self.twins):
            if t2 is t and hasattr(t.proc.twin_env.get(v), "close"):
                self.do(t, {"id": "z" + v, "op": "twin", "m": "close", "f": v, "p": p})
                t.proc.twin_env.pop(v)
        for (pn, var), b in list(self.boxes.items()):
            if pn == t.proc.name and b.obj is not None and (b.opener is t or getattr(b, "inherited", None) is not None):
                self.do(t, {"id": "z" + var, "op": "close", "f": var})

    # ---- operations
    def do(self, t, a):
        fn = getattr(self, "op_" + a["op"])
        t.set_op(a["id"])
        r = Rec(t.name, t.proc.name, a)
        self.begin(t, r)
        if "intr" in a and a["op"] in OPENERS:
            t.intr_at = self.sched.now + int(a["intr"] * NS)   # ^C while it waits
        try:
            try:
                r.val = fn(t, a, r)
            finally:
                t.intr_at = None
        except SimAbort:
            raise
        except HarnessError:
            raise
        except BaseException as e:
            r.exc = self.classify(e)
            r.info["written"] = getattr(e, "characters_written", None)
            for m in self.monitors:   # (while the exception, and the frames it holds, are still alive)
                if hasattr(m, "raised"):
                    t.harness += 1
                    m.raised(t, r)
                    t.harness -= 1
            e.__traceback__ = None
            e.__context__ = e.__cause__ = None
            del e
        self.sched._check(t)    # (a destructor swallows whatever tells the task that the run, or its process, is over)
        self.end(t, r)
        return r

    @staticmethod
    def classify(e):
        return (type(e).__name__, getattr(e, "errno", None), str(e)[:160],
                tuple(c.__name__ for c in type(e).__mro__[:-2]))

    def begin(self, t, r):
        self.tick += 1
        r.inv, r.t0 = self.tick, self.sched.now
        self.history.append(r)
        self.inflight[t.name] = r
        t.harness += 1
        try:
            for m in self.monitors:
                if hasattr(m, "invoke"):
                    m.invoke(t, r)
        finally:
            t.harness -= 1

    def end(self, t, r):
        self.tick += 1
        r.ret, r.t1 = self.tick, self.sched.now
        self.opcount += 1
        self.inflight.pop(t.name, None)
        self.sched.record(r.task, r.id, r.op, r.exc and r.exc[:2], _short(r.val), r.t1)
        t.harness += 1
        try:
            for m in self.monitors:
                if hasattr(m, "returned"):
                    m.returned(t, r)
        finally:
            t.harness -= 1
        if self.sched.ch.replay or self.cfg.get("p_op", 1):
            t.pt += 1
            self.sched.point("op")

    def box(self, t, var):
        return self.boxes.get((t.proc.name, var))

    def need(self, t, a, r, key="f"):
        b = self.box(t, a[key])
        if b is None or b.obj is None:
            r.skipped = True
            return None
        return b

    def inode_of(self, proc, fd):
        f = proc.fds.get(fd)
        return f.ofd.inode if f else None

    # ---- opening and closing
    def open_kwargs(self, t, a):
        kw = {}
        for k in ("buffering", "encoding", "errors", "newline", "locking", "timeout", "thread_safe", "permissions",
                  "closefd"):
            if k in a:
                kw[k] = a[k]
        if "mutex" in a:
            b = self.box(t, a["mutex"])
            if b is not None:
                kw["mutex"] = b.obj.mutex
        if a.get("own_mutex"):       # one of the application
            kw["mutex"] = t.proc.own_mutex = seam.SimRLock()
        return kw

    def adopt(self, t, a, r, obj, path, wrapped=False):
        b = Box(obj, a["f"], t.proc.name, t.proc, path, a.get("mode"), wrapped, a.get("closefd", True))
        self.nbox += 1
        b.key = self.nbox
        t.harness += 1
        try:
            b.fd = raw_of(obj).handle() if self.windows else raw_of(obj).fileno()
        except (OSError, ValueError, AssertionError):
            b.fd = None
        finally:
            t.harness -= 1
        f = t.proc.fds.get(b.fd)
        if f is not None:
            b.inode, b.fdgen, b.ofd = f.ofd.inode, f.gen, f.ofd
        fl = b.flags = a["kw"] if "kw" in a else mode_flags(a["mode"])
        if "kw" in a:
            fl = b.flags = dict(r=fl.get("read", False), w=fl.get("write", False) or fl.get("append", False),
                                a=fl.get("append", False), inherit=fl.get("inheritable", False), binary=True)
        b.writable, b.readable = fl["w"], fl["r"]
        b.opts = dict(t.proc.options)
        b.opened_by, b.opener = r, t
        self.boxes[(t.proc.name, a["f"])] = b
        r.info["box"] = b
        return b

    def path(self, a):
        """The path in one of the forms it may have."""
        p, form = a["path"], a.get("form")
        if form is None or self.windows or p == "":
            return p
        if form == "bytes":
            return p.encode()
        if form == "abs":
            return "/sim/" + p
        if form == "odd":               # (the simulated file system ignores this byte, which is no valid character)
            return p + "\udcff"
        return p if a["op"] in ("rawio", "wrapper_io") else pathlib.PurePosixPath(p)

    def op_open(self, t, a, r):
        if self.box(t, a["f"]) is not None:
            r.skipped = True
            return
        obj = t.proc.rs.rs.rsopen(self.path(a), a["mode"], **self.open_kwargs(t, a))
        self.adopt(t, a, r, obj, a["path"])

    def op_badopen(self, t, a, r):
        """An opening with wrong arguments."""
        rs = t.proc.rs.rs
        name = {"none": None, "empty": "", "emptyb": b"", "true": True, "float": 1.5, "list": [], "nul": "a\0b", "minus": -1}[
            a["as_"]] if "as_" in a else a["path"]
        kw = dict(a["kw"])
        if kw.pop("mutex", None):
            kw["mutex"] = seam.SimRLock()
        if "opener" in kw:
            n = kw["opener"]
            kw["opener"] = lambda *args: n
        if a.get("fd") is not None:
            kw[a["fd"]] = getattr(t.proc, "hfds", {}).get("h", 99)
        cls = a.get("cls")
        f = rs.rsopen(name, a["mode"], **kw) if cls is None else getattr(rs, cls)(name, **kw)
        r.val = type(f).__name__
        f.close()

    def op_rawio(self, t, a, r):
        """RSFileIO constructed directly."""
        if self.box(t, a["f"]) is not None:
            r.skipped = True
            return
        kw = dict(a["kw"])
        obj = t.proc.rs.rs.RSFileIO(self.path(a), **kw)
        self.adopt(t, a, r, obj, a["path"])

    def op_wrapper_io(self, t, a, r):
        """RSFileIOWrapper (what io.FileIO is replaced by)."""
        if self.box(t, a["f"]) is not None:
            r.skipped = True
            return
        obj = t.proc.rs.rs.RSFileIOWrapper(self.path(a), a["mode"])
        self.adopt(t, a, r, obj, a["path"])

    def op_wrap(self, t, a, r):
        """Wraps a descriptor the application opened by itself."""
        if self.box(t, a["f"]) is not None:
            r.skipped = True
            return
        h = t.proc.hfds.get(a["fd"]) if hasattr(t.proc, "hfds") else None
        if h is None:
            r.skipped = True
            return
        kw = self.open_kwargs(t, a)
        how = a.get("how", "fileno")
        if self.windows and how != "handle":
            c = t.proc.hcfds.get(a["fd"])
            if c is None:
                c = t.proc.hcfds[a["fd"]] = self.kernel.crt_open(t.proc, h)
        r.info["gen"] = t.proc.fds[h].gen if h in t.proc.fds else None
        if a.get("closefd", True):
            del t.proc.hfds[a["fd"]]    # it belongs to the library now
        if self.windows and how != "handle":
            h = c
            if a.get("closefd", True):
                del t.proc.hcfds[a["fd"]]
        if how == "fileno":
            obj = t.proc.rs.rs.rsopen(None, a["mode"], fileno=h, **kw)
        elif how == "handle":
            obj = t.proc.rs.rs.rsopen(None, a["mode"], handle=h, **kw)
        elif how == "name":
            obj = t.proc.rs.rs.rsopen(h, a["mode"], **kw)
        else:
            kw.pop("closefd", None)
            obj = t.proc.rs.rs.rsopen(a.get("path", "x"), a["mode"], opener=lambda n, m: h, **kw)
        b = self.adopt(t, a, r, obj, a.get("path"), wrapped=True)
        b.hname = a["fd"]

    def op_hopen(self, t, a, r):
        """The application opens a descriptor by itself."""
        if not hasattr(t.proc, "hfds"):
            t.proc.hfds = {}
        if a["fd"] in t.proc.hfds:
            r.skipped = True
            return
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT, "rw": os.O_RDWR | os.O_CREAT,
                 "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND, "ra": os.O_RDWR | os.O_CREAT | os.O_APPEND}[a["mode"]]
        fd = self.kernel.open(t.proc, a["path"], flags, 0o644, "harness")
        t.proc.fds[fd].cloexec = not a.get("inheritable", False)
        t.proc.hfds[a["fd"]] = fd
        r.info["fd"], r.info["gen"] = fd, t.proc.fds[fd].gen
        return fd

    def op_hclose(self, t, a, r):
        h = getattr(t.proc, "hfds", {})
        if a["fd"] not in h:
            r.skipped = True
            return
        fd = h.pop(a["fd"])
        if self.windows:
            t.proc.cfds.pop(t.proc.hcfds.pop(a["fd"], None), None)
        if fd in t.proc.fds:
            self.kernel._drop(t.proc, fd)

    def op_hread(self, t, a, r):
        """The application reads from its own descriptor, once or (n is None) up to the end."""
        fd = getattr(t.proc, "hfds", {}).get(a["fd"])
        if fd not in t.proc.fds:
            r.skipped = True
            return
        out = []
        while True:
            try:
                d = self.kernel.read(t.proc, fd, a.get("n") or a.get("chunk", 10))
            except BlockingIOError:
                self.sched.block("pipe poll", self.sched.now + NS // 500)
                continue
            out.append(d)
            if not d or a.get("n") is not None:
                return b"".join(out)
            self.sched.point("pipe")

    def op_hwrite(self, t, a, r):
        """The application writes to its own descriptor."""
        fd = getattr(t.proc, "hfds", {}).get(a["fd"])
        if fd not in t.proc.fds:
            r.skipped = True
            return
        d = a["data"].encode("latin-1" if not a.get("text") else "utf-8")
        while d:
            try:
                d = d[self.kernel.write(t.proc, fd, d):]
            except BlockingIOError:
                self.sched.block("pipe poll", self.sched.now + NS // 500)

    def op_push(self, t, a, r):
        """Writes everything, in as many calls as it takes, then flushes."""
        data, k = a["data"], 0
        while data and k < 400:
            k += 1
            x = self.do(t, dict(a, id="%s.%d" % (a["id"], k), op="write", data=data))
            n = x.info.get("written") if x.exc and x.exc[0] == "BlockingIOError" else None if x.exc else x.val
            if x.skipped or (x.exc and n is None):
                return
            data = data[n or 0:]
            if data:
                self.sched.block("push", self.sched.now + NS // 1000)
        while k < 800:
            k += 1
            x = self.do(t, {"id": "%s.%d" % (a["id"], k), "op": "call", "m": "flush", "f": a["f"]})
            if not x.exc or x.exc[0] != "BlockingIOError":
                break
            self.sched.block("push", self.sched.now + NS // 1000)

    def op_pull(self, t, a, r):
        """Reads up to the end of the stream."""
        for k in range(800):
            x = self.do(t, dict(a, id="%s.%d" % (a["id"], k), op="read"))
            if x.skipped or x.exc or (x.val is not None and not x.val and not x.info.get("again")):
                return
            if x.info.get("again"):
                self.sched.block("pull", self.sched.now + NS // 1000)

    def op_close(self, t, a, r):
        b = self.need(t, a, r)
        if b is None:
            return
        r.info["box"] = b
        if a.get("keep"):
            try:
                b.obj.close()
            finally:
                b.closed = raw_of(b.obj).closed
            return
        try:
            b.obj.close()
        finally:
            if raw_of(b.obj).closed and self.boxes.get((t.proc.name, a["f"])) is b:
                self.boxes.pop((t.proc.name, a["f"]), None)
                b.closed = True
                self.dead_boxes.append(b)

    def op_drop(self, t, a, r):
        """The last reference goes away: collection closes the stream."""
        b = self.need(t, a, r)
        if b is None:
            return
        r.info["box"] = b
        self.boxes.pop((t.proc.name, a["f"]), None)
        b.closed = True
        self.dead_boxes.append(b)
        o = b.obj
        b.obj = None
        w = weakref.ref(raw_of(o))
        del o
        if w() is not None:
            # reference cycles (the wrapper caches bound proxies): what the cycle collector would do
            # (a collection cannot run inside another one: wait for the other to end)
            n = 0
            while self.collecting and n < 1000:
                self.sched.block("other collection", self.sched.now + NS // 1000)
                n += 1
            if w() is not None:
                self.collecting = True
                try:
                    gc.collect()
                finally:
                    self.collecting = False
        r.info["collected"] = w() is None

    # ---- locks
    def lock_kwargs(self, a):
        return {k: a[k] for k in ("timeout", "length", "offset", "whence", "shared") if k in a}

    def op_lock(self, t, a, r):
        b = self.need(t, a, r)
        if b is None:
            return
        r.info["box"] = b
        if a.get("whence") == 1 and b.meta.get("pos") is None:
            r.skipped = True
            return
        if a.get("intr"):
            t.intr_at = self.sched.now + int(a["intr"] * NS)
        try:
            cm = b.obj.lock_file(**self.lock_kwargs(a))
        finally:
            t.intr_at = None
        if a.get("keep"):
            t.cms = getattr(t, "cms", {})
            t.cms[a["keep"]] = (cm, a)

    def op_unlock(self, t, a, r):
        b = self.need(t, a, r)
        if b is None:
            return
        r.info["box"] = b
        if a.get("whence") == 1 and b.meta.get("pos") is None:
            r.skipped = True
            return
        b.obj.unlock_file(**{k: a[k] for k in ("length", "offset", "whence") if k in a})

    def op_badlock(self, t, a, r):
        """A lock or unlock call with an argument which is no such thing."""
        b = self.need(t, a, r)
        if b is None:
            return
        r.info["box"] = b
        r.val = type(getattr(b.obj, a["m"])(**a["kw"])).__name__

    def op_with_lock(self, t, a, r):
        """with f.lock_file(...): body.  Recorded as a lock and an exit operation."""
        b = self.need(t, a, r)
        if b is None:
            return
        if a.get("whence") == 1 and b.meta.get("pos") is None:
            r.skipped = True
            return
        la = dict(a, op="lock")
        rl = Rec(t.name, t.proc.name, la)
        rl.info["box"] = b
        self.begin(t, rl)
        cm = None
        try:
            if a.get("intr"):
                t.intr_at = self.sched.now + int(a["intr"] * NS)
            try:
                cm = b.obj.lock_file(**self.lock_kwargs(a))
            finally:
                t.intr_at = None
        except (SimAbort, HarnessError):
            raise
        except BaseException as e:
            rl.exc = self.classify(e)
            e.__traceback__ = None
        self.end(t, rl)
        r.skipped = True  # the lock and exit records stand for it
        if rl.exc:
            return
        boom = kind = None
        if a.get("tmp"):
            b.obj = None     # with rsopen(...).lock_file(...): nobody has the stream itself
        cm.__enter__()
        try:
            for x in a["body"]:
                rr = self.do(t, x)
                if rr.exc and a.get("propagate"):
                    raise BodyError("propagated")
            if a.get("raise"):
                raise BodyError("body")
        except BodyError as e:
            boom, kind = BodyError(*e.args), BodyError
        t.set_op(str(a["id"]) + "x")
        rx = Rec(t.name, t.proc.name, {"id": str(a["id"]) + "x", "op": "exit", "f": a["f"]})
        rx.info["box"], rx.info["lock"] = b, rl
        self.begin(t, rx)
        try:
            if boom is None:
                rx.val = bool(cm.__exit__(None, None, None))
            else:
                try:
                    rx.val = bool(cm.__exit__(kind, boom, None))
                except BodyError:
                    rx.val = False
        except (SimAbort, HarnessError):
            raise
        except BaseException as e:
            rx.exc = self.classify(e)
            e.__traceback__ = None
        boom = None
        if not a.get("tmp"):
            cm = None
        self.end(t, rx)
        if a.get("tmp"):
            t.set_op(str(a["id"]) + "d")
            rd = Rec(t.name, t.proc.name, {"id": str(a["id"]) + "d", "op": "drop", "f": a["f"]})
            rd.info["box"] = b
            self.begin(t, rd)
            self.boxes.pop((t.proc.name, a["f"]), None)
            b.closed = True
            self.dead_boxes.append(b)
            cm = None
            self.end(t, rd)

    def op_hold_mutex(self, t, a, r):
        b = self.need(t, a, r)
        if b is None:
            return
        before = getattr(t, "using", ())
        t.using = (*before, a["f"])
        try:
            with getattr(t.proc, "own_mutex", None) or b.obj.mutex:
                for x in a["body"]:
                    self.do(t, x)
        finally:
            t.using = before

    # ---- data
    def op_write(self, t, a, r):
        b = self.need(t, a, r)
        if b is None:
            return
        r.info["box"] = b
        d = a["data"]
        if not a.get("text"):
            d = d.encode("latin-1")
            k = a.get("as")
            if k == "bytearray":
                d = bytearray(d)
            elif k == "memoryview":
                d = memoryview(d)
            elif k == "array":
                d = array.array("B", d)
            elif k == "slice":       # a part of something larger
                d = memoryview(b"<<" + d + b">")[2:-1]
            elif k == "strided":
                d = memoryview(bytes(x for c in d for x in (c, 33)))[::2]
            elif k == "words":       # items of two bytes
                d = memoryview(d).cast("H") if len(d) % 2 == 0 else d
            elif k == "wordarray":
                d = array.array("H", d) if len(d) % 2 == 0 else d
        if "seek" in a:
            b.obj.seek(a["seek"])
        if a.get("m") == "writelines":
            return b.obj.writelines([d])
        return b.obj.write(d)

    def op_read(self, t, a, r):
        b = self.need(t, a, r)
        if b is None:
            return
        r.info["box"] = b
        m = a.get("m", "read")
        n = a.get("n", -1)
        if "seek" in a:
            b.obj.seek(a["seek"])
        if m == "readinto":
            k = a.get("into")
            buf = bytearray(b"<" * (n + 5))
            v = memoryview(buf)[2:n + 2]
            if k == "array":
                v = array.array("B", bytes(n))
            elif k == "words" and n % 2 == 0:
                v = v.cast("H")
            elif k is None:
                v = bytearray(n)
            got = b.obj.readinto(v)
            if buf[:2] != b"<<" or buf[n + 2:] != b"<<<":
                self.fail("wrote outside the buffer", "%s: %r" % (r.show(), bytes(buf)))
            return None if got is None else bytes(memoryview(v).cast("B")[:got])
        if m == "next":
            try:
                return next(iter(b.obj))
            except StopIteration:
                return b""
        if m == "iter":
            return [x for x in b.obj]
        if m == "readlines":
            return b.obj.readlines()
        if m == "readall":
            return b.obj.readall()
        return getattr(b.obj, m)(n)

    def op_seek(self, t, a, r):
        b = self.need(t, a, r)
        if b is None:
            return
        r.info["box"] = b
        return b.obj.seek(a["n"], a.get("whence", 0))

    def op_call(self, t, a, r):
        """Any other method."""
        b = self.need(t, a, r)
        if b is None:
            return
        r.info["box"] = b
        v = getattr(b.obj, a["m"])(*a.get("args", []), **a.get("kw", {}))
        if a["m"] == "times":
            v = (v.access_time, v.modification_time)
        return v

    def op_attr(self, t, a, r):
        b = self.need(t, a, r)
        if b is None:
            return
        r.info["box"] = b
        return getattr(b.obj, a["m"])

    def op_with(self, t, a, r):
        b = self.need(t, a, r)
        if b is None:
            return
        r.info["box"] = b
        try:
            with b.obj as x:
                for o in a["body"]:
                    self.do(t, o)
                t.set_op(a["id"])
                return x is b.obj
        finally:
            b.closed = raw_of(b.obj).closed

    # ---- helpers
    def op_read_file(self, t, a, r):
        kw = {k: a[k] for k in ("buffering", "locking", "timeout", "encoding", "newline") if k in a}
        return t.proc.rs.rs.read_from_file(self.path(a), binary=not a.get("text"), **kw)

    def op_write_file(self, t, a, r):
        kw = {k: a[k] for k in ("buffering", "locking", "timeout", "encoding", "newline", "sync", "must_create",
                                "must_not_create") if k in a}
        d = a["data"] if a.get("text") else a["data"].encode("latin-1")
        return t.proc.rs.rs.write_to_file(self.path(a), d, **kw)

    def op_append_file(self, t, a, r):
        kw = {k: a[k] for k in ("buffering", "locking", "timeout", "encoding", "newline", "sync",
                                "must_not_create") if k in a}
        d = a["data"] if a.get("text") else a["data"].encode("latin-1")
        return t.proc.rs.rs.append_to_file(self.path(a), d, **kw)

    # ---- the environment
    def op_sleep(self, t, a, r):
        self.sched.block("op sleep", self.sched.now + int(a["s"] * NS))

    def op_barrier(self, t, a, r):
        """Waits until every other thread is done (with an optional group: only those tasks)."""
        mine = t.barrier = 1 + a.get("order", 0)
        names = a.get("names")
        while any(x.state in ("runnable", "blocked") and x is not t and (names is None or x.name in names) and getattr(x, "barrier", 0) <= mine
                  for x in self.sched.tasks):
            self.sched.block("barrier", self.sched.now + NS)
        t.nofault = True

    def op_await(self, t, a, r):
        """Waits until another thread of this process has opened the stream."""
        for k in range(300):
            if self.box(t, a["f"]) is not None:
                return
            self.sched.block("await", self.sched.now + NS // 1000)

    def op_yield(self, t, a, r):
        self.sched.point("yield")

    def op_clock(self, t, a, r):
        self.sched.wall_skew += int(a["s"] * NS)
        self.sched.count("clock step")

    def op_kill(self, t, a, r):
        """Another process dies (SIGKILL)."""
        p = self.procs.get(a["proc"])
        if p is None or p.dead or p is t.proc:
            r.skipped = True
            return
        self.sched.count("process killed")
        p.kill()

    def op_die(self, t, a, r):
        """This process dies here."""
        self.sched.count("process exit")
        t.proc.kill()
        self.sched.task()  # raises

    def op_options(self, t, a, r):
        if "kw" in a:
            t.proc.rs.rs.set_rsfile_options(**a["kw"])
            t.proc.options.update(a["kw"])
        val = dict(t.proc.rs.rs.get_rsfile_options())
        t.proc.rs.rs.get_rsfile_options().update(default_spinlock_delay=77, junk=1)     # (a copy)
        return val

    def op_twin(self, t, a, r):
        """A call on the patched io module (the monitor then does the same on the original one)."""
        env = t.proc.__dict__.setdefault("twin_env", {})
        if ("f" in a and a["m"] not in twin.MAKERS and a["f"] not in env) or a.get("over") is not None and a["over"] not in env \
                or isinstance(a.get("path"), dict) and a["path"]["fd"] not in env:
            r.skipped = True
            return None
        if a["m"] in twin.MAKERS or a["m"] == "detach":
            self.twins.append((t, a["to"] if a["m"] == "detach" else a["f"], a["p"]))
        return twin.perform(self, t.proc, env, twin.patched(t.proc), a, "")

    def op_exec(self, t, a, r):
        r.info["view"] = {fd: (f.origin, f.gen) for fd, f in self.kernel.exec_view(t.proc).items()}

    def op_unlink(self, t, a, r):
        self.kernel.unlink(t.proc, a["path"])

    def op_extern(self, t, a, r):
        """Another program (not using the library) changes the file directly: append/truncate/write."""
        k = self.kernel
        i = k.names.get(k.norm(a["path"]))
        if i is None or a["how"] == "link" and k.norm(a["to"]) in k.names:
            r.skipped = True
            return
        if a["how"] == "rename":
            return k.rename(None, a["path"], a["to"])
        if a["how"] == "link":
            return k.link(None, a["path"], a["to"])
        if a["how"] == "unlink":
            return k.unlink(None, a["path"])
        if a["how"] == "replace":     # as careful editors do
            k.mkfile("sub/new", a["data"].encode("latin-1")).dev = i.dev
            return k.rename(None, "sub/new", a["path"])
        if a["how"] == "chmod":
            i.mode ^= 0o111
            return None
        if a["how"] == "utime":
            i.atime, i.mtime = a["t"] * NS + 500_000_000, a["t"] * 2 * NS
            i.note()
            return None
        d = a.get("data", "").encode("latin-1")
        if a["how"] == "append":
            i.data.extend(d)
        elif a["how"] == "write":
            at = a.get("at", 0)
            if at > len(i.data):
                i.data.extend(bytes(at - len(i.data)))
            i.data[at:at + len(d)] = d
        else:
            n = a["n"]
            if n < len(i.data):
                del i.data[n:]
            else:
                i.data.extend(bytes(n - len(i.data)))
        i.touch_m()

    def vars_of(self, a):
        out = {a["f"]} if "f" in a else set()
        for x in a.get("body", ()):
            out |= self.vars_of(x)
        return out

    def op_fork(self, t, a, r):
        # streams which other threads are using might be in any state: the child leaves them alone
        busy = set()
        for name, o in self.inflight.items():
            if o.proc == t.proc.name and name != t.name:
                busy.update(self.vars_of(o.a))
                if o.op == "hold_mutex":
                    busy.add(o.a["f"])
        for x in self.sched.tasks:
            if x.proc is t.proc and x is not t and x.state in ("runnable", "blocked"):
                busy.update(getattr(x, "using", ()))
        if a["child"] in self.procs:
            r.skipped = True
            return
        t.harness += 1
        try:
            td = a["task"]
            holder = self.sched.spawn(td["name"], None, None)
            holder.ident = t.ident
            child, c = fork_process(self, t.proc, t, holder)
            child.name = a["child"]
            self.procs[a["child"]] = child
            child.options = dict(t.proc.options)
            child.hfds = dict(getattr(t.proc, "hfds", {}))
            for (pn, var), b in list(self.boxes.items()):
                if pn == t.proc.name and b.obj is not None and (var not in busy or a.get("busy_ok")):
                    nb = Box(c.clone(b.obj), var, child.name, child, b.path, b.mode, b.wrapped, b.closefd)
                    self.nbox += 1
                    nb.key = self.nbox
                    nb.opts = b.opts
                    nb.inode, nb.fd, nb.writable, nb.readable, nb.flags = b.inode, b.fd, b.writable, b.readable, b.flags
                    nb.inherited = b
                    nb.closed = b.closed
                    nb.meta = dict(b.meta)
                    nb.ofd = getattr(b, "ofd", None)
                    nb.fdgen = child.fds[b.fd].gen if b.fd in child.fds and t.proc.fds[b.fd].gen == b.fdgen else None
                    self.boxes[(child.name, var)] = nb
            for before, inparent, inchild in t.proc.at_fork:
                if before:
                    before()
            holder.proc = child

            def main(ct):
                for _, _, inchild in child.at_fork:
                    if inchild:
                        inchild()
                for x in td["ops"]:
                    self.do(ct, x)
                if not self.cfg.get("noautoclose"):
                    self.autoclose(ct)
            holder.fn = main
            for before, inparent, inchild in t.proc.at_fork:
                if inparent:
                    inparent()
        finally:
            t.harness -= 1
        self.forks += 1
        self.sched.count("fork")
        for m in self.monitors:
            if hasattr(m, "forked"):
                m.forked(t.proc, child)
        return child.pid

    # ---- reporting
    def trace_text(self, limit=200):
        return [r.show() for r in self.history[-limit:]]


def inner(o):
    """The next stream layer down, or None."""
    d = getattr(o, "__dict__", {})
    if "wrapped_stream" in d:
        return d["wrapped_stream"]
    if "_buffer" in d and d["_buffer"] is not None and not callable(d["_buffer"]):
        return d["_buffer"]
    return d.get("_raw")


def layers(obj):
    out = [obj]
    while len(out) < 6:
        o = inner(out[-1])
        if o is None:
            break
        out.append(o)
    return out


def raw_of(obj):
    return layers(obj)[-1]


DEFAULTS = {"enforced_locking_timeout_value": None, "default_spinlock_delay": 0.1}


def mode_flags(mode):
    """(readable, writable, append, erase, inheritable, must_create, must_exist, synchronized, binary)"""
    if mode.upper() == mode:
        a = "A" in mode
        w = "W" in mode or a
        c = "C" in mode or "-" in mode
        return dict(r="R" in mode, w=w, a=a, erase="E" in mode and not c, inherit="I" in mode, create=c,
                    exist="N" in mode or "+" in mode, sync="S" in mode, binary="B" in mode)
    r, w, a, x, p = (k in mode for k in "rwax+")
    return dict(r=r or p, w=w or a or x or p, a=a, erase=w, inherit=False, create=x, exist=r, sync=False,
                binary="b" in mode)


def _short(v):
    if isinstance(v, (bytes, str, list)) and len(v) > 64:
        return (type(v).__name__, len(v), hash_of(v))
    return v


def hash_of(v):
    import zlib
    return zlib.crc32(repr(v).encode("utf-8", "surrogatepass"))
