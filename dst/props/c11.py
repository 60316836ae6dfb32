"""C11: descriptors are closed exactly once, when due, and only if owned."""
import errno as E

from ..engine import Prop
from ..gens import LockGen, open_op
from ..world import raw_of

OPENING = ("open", "wrap", "wrapper_io", "rawio", "read_file", "write_file", "append_file")
RELEASING = ("unlock", "exit", "close", "drop") + OPENING


class Fds:
    """Watches every use of a descriptor, and what is left open."""

    def __init__(self):
        self.stats = {}

    def start(self):
        self.world.kernel.on_get = self.used
        self.world.kernel.on_install = self.opened
        self.given = set()     # generations of descriptors handed over (closefd=True)
        self.uses = {}         # kernel calls made with each of the library's descriptors

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def open_boxes(self, proc):
        return [b for b in self.world.boxes.values() if b.proc is proc and not b.closed and b.obj is not None]

    def invoke(self, t, r):
        r.info["gen0"] = self.world.kernel.gen
        if r.op == "wrap" and r.a.get("closefd", True):
            h = getattr(t.proc, "hfds", {}).get(r.a["fd"])
            if h in t.proc.fds and t.proc.fds[h].ofd.inode.kind != "d":   # (a directory is given back)
                self.given.add(t.proc.fds[h].gen)

    def opened(self, f):
        t = self.world.sched.current
        if t is not None and not t.harness:
            f.by = self.world.inflight.get(t.name)

    def raised(self, t, r):
        """An opening has failed: its descriptor is released now, not when the exception gets collected."""
        w = self.world
        if r.op not in OPENING or t.proc.dead or w.violation:
            return
        if any(o is not r and o.proc == t.proc.name and (o.op in RELEASING or o.op == "lock") for o in w.inflight.values()):
            return    # (others might have locked the file at that time)
        for fd, f in t.proc.fds.items():
            if f.by is r and f.origin == "lib" and not any(l[0] == t.proc.pid for l in f.ofd.inode.locks) \
                    and not any(b.inode is f.ofd.inode for b in self.open_boxes(t.proc)) and not self.blind(f.gen):
                w.fail("failed opening keeps its descriptor", "when %s raised %s, descriptor %s was still open" % (
                    r.show(), r.exc, fd))

    def current(self, t):
        w = self.world
        return w.inflight.get(t.name)

    def used(self, proc, fd, f):
        w = self.world
        t = w.sched.current
        if t is None or t.harness or t.proc is not proc:
            return
        r = self.current(t)
        if r is None:
            return
        name = t.sysname
        b = r.info.get("box")
        if b is None and "f" in r.a and r.op not in OPENING:
            b = w.box(t, r.a["f"])
        what = "%s by %s/%s during %s" % (name, proc.name, t.name, r.show())
        if b is not None and b.closed and r.op != "drop" and name != "close" and (f is None or f.gen != b.fdgen) \
                and r.info.get("was_closed", False):
            w.fail("closed stream used a descriptor", "%s: the stream is closed, yet it used descriptor %s" % (what, fd))
        if f is None:
            if r.op == "wrap" or (b is not None and b.wrapped):
                return
            w.fail("stale descriptor", "%s: descriptor %s is not open (any more)" % (what, fd))
        closing = [o.info.get("box") for o in w.inflight.values() if o.op in ("close", "drop")]
        if f.origin == "lib":
            self.uses.setdefault(f.gen, []).append(name)
        owners = [x for x in self.open_boxes(proc) if x.fdgen == f.gen and x not in closing]
        fresh = r.op in OPENING and f.gen > r.info["gen0"]
        if f.origin == "harness":
            if r.op == "wrap" and r.info.get("gen") == f.gen:
                ok = name != "close" or f.gen in self.given or any(
                    tn == t.name and o == r.id and n == "fstat" and x[0] == "err" for tn, o, n, x in w.sched.fault_log)
            elif b is not None and b.wrapped and b.fdgen == f.gen:
                ok = name != "close" or b.closefd
            else:
                # left open until the locks of the file are gone
                ok = name == "close" and f.gen in self.given and not owners
            if not ok:
                w.fail("somebody else's descriptor", "%s: descriptor %s belongs to the application" % (what, fd))
            return
        if f.origin == "std":
            w.fail("somebody else's descriptor", "%s: descriptor %s is not the library's" % (what, fd))
        if name == "close":
            if any(x is not b for x in owners):
                w.fail("open stream lost its descriptor", "%s: descriptor %s belongs to the open stream %s" % (
                    what, fd, owners[0].var))
            return
        if fresh or (b is not None and b.fdgen == f.gen):
            return
        w.fail("another stream's descriptor", "%s: descriptor %s is not that of the stream" % (what, fd))

    def returned(self, t, r):
        w = self.world
        if r.skipped or t.proc.dead or w.violation:
            return
        proc = t.proc
        a = r.a
        b = r.info.get("box")
        if r.op == "close" and b is not None:
            if r.exc is not None and r.exc[0] not in ("SimInterrupt", "KeyboardInterrupt") and not b.closed:
                w.fail("failed close keeps the stream open", "%s: the stream is still open" % r.show())
            if r.exc is not None:
                self.stat("closes that failed")
        if r.op in OPENING and r.exc is not None:
            self.stat("openings that failed")
        if r.op not in RELEASING:
            return
        self.leaks(proc, r)

    def blind(self, gen):
        """Did fstat() fail right after the open() of this descriptor?  (A recorded finding.)"""
        if self.uses.get(gen) == ["fstat"] and any(name == "fstat" and f[0] == "err"
                                                   for _, _, name, f in self.world.sched.fault_log):
            return self.world.known("leak-fstat-after-open",
                                    "fstat() failed right after the open() of a descriptor, which was leaked")
        return False

    def leaks(self, proc, r):
        w = self.world
        fl = [o for o in w.inflight.values() if o.proc == proc.name and o is not r]
        if any(o.op in OPENING or o.op == "drop" for o in fl):
            return
        busy = set()
        for o in fl:
            x = o.info.get("box") or w.boxes.get((proc.name, o.a.get("f")))
            if x is not None and x.inode is not None:
                busy.add(x.inode)
        owned = {x.fdgen for x in self.open_boxes(proc)}
        # only the file concerned by this call has to be in order
        b = r.info.get("box")
        only = b.inode if b is not None else None
        for fd, f in proc.fds.items():
            mine = f.origin == "lib" or f.gen in self.given
            if not mine or f.gen in owned:
                continue
            ino = f.ofd.inode
            if ino in busy:
                continue
            if only is not None and ino is not only:
                continue
            if f.gen in self.given and r.op == "wrap":
                continue           # a failed wrapping: whose it is now is a matter of taste
            if ino.kind == "f" and any(l[0] == proc.pid for l in ino.locks):
                self.stat("descriptors kept for the locks of others")
                continue
            if f.gen in self.given and any(h.op == "wrap" and h.exc and h.info.get("gen") == f.gen for h in w.history):
                continue
            if self.blind(f.gen):
                continue
            w.fail("descriptor leaked", "after %s descriptor %s (%s) is still open although no stream owns it and "
                   "the process has no lock on that file" % (r.show(), fd, f.ofd.path))


FAULTS = {"close": [(E.EIO, 0.1), (E.EINTR, 0.05)], "write": [(E.ENOSPC, 0.2), (E.EIO, 0.1), ("short", 0.1)],
          "lockf": [(E.ENOLCK, 0.1), (E.EDEADLK, 0.05)], "unlockf": [(E.ENOLCK, 0.08)],
          "lseek": [(E.EIO, 0.04)], "fstat": [(E.EIO, 0.06), (E.EOVERFLOW, 0.03)], "setfd": [(E.EIO, 0.05)],
          "ftruncate": [(E.EIO, 0.1), (E.EFBIG, 0.05)], "open": [(E.EMFILE, 0.08), (E.ENOSPC, 0.04), (E.EINTR, 0.03)]}


class C11(Prop):
    id = "C11"
    quick = 12000
    thorough = 300000
    rule = ("Programs of up to four threads which open (all modes, raw, buffered, text, thread-safe, with locks), wrap "
            "(owned, not owned, by number, handle, name or opener), lock, close twice, collect and use closed streams, "
            "with openings and helpers that fail and kernel failures in every call; descriptor numbers are reused "
            "at once, by the application and by the library, down to 0. Every use of a descriptor is checked against "
            "who owns it, and what is open after every releasing call against the streams and locks that are left.")

    def gen(self, rng):
        keys = [k for k in FAULTS if rng.random() < 0.5]
        faults = {k: FAULTS[k] for k in keys} if rng.random() < 0.6 else None
        self.rng = rng
        g = LockGen(rng, nprocs=rng.choice([1, 1, 1, 2]), ntasks=rng.choice([1, 2, 2, 3, 4]), p_misc=0.5, min_ops=4, max_ops=11,
                    faults=faults, max_faults=rng.choice([1, 2, 4, 8]), p_lines=0.3, far=0.03, p_block=0.2, p_wrap=0.25,
                    p_autolock=0.25, intr=0.1, paths=["a"] if rng.random() < 0.6 else ["a", "b"], p_share=0.1)
        self.lastgen = g
        p = g.program()
        for td in p["tasks"]:
            self.spice(g, rng, td)
        p["cfg"]["kernel"]["maxfds"] = rng.choice([1024, 1024, 12])
        if rng.random() < 0.3:
            p["cfg"]["std"] = {x: rng.choice([[], [1, 2], [0]]) for x in p["procs"]}
        return p

    def spice(self, g, rng, td):
        """Second closes, uses of closed streams, reuse of descriptor numbers, owned wraps."""
        ops = []
        hs = []
        for a in td["ops"]:
            if a["op"] == "close" and rng.random() < 0.5:
                a["keep"] = 1
                ops.append(a)
                for _ in range(rng.choice([1, 2, 3])):
                    ops.append(self.after(g, rng, a["f"], hs))
                ops.append(g.op("drop", f=a["f"]))
                continue
            if a["op"] == "drop" and rng.random() < 0.3:
                ops.append(dict(g.op("close", f=a["f"]), keep=1))
                ops.append(self.after(g, rng, a["f"], hs))
            ops.append(a)
            if rng.random() < 0.12:
                ops.append(self.hopen(g, rng, hs))
            if rng.random() < 0.12 and hs:
                h, m = hs.pop(rng.randrange(len(hs)))
                v = g.var("w")
                ms = {"rw": ["RWB", "RB", "r+b", "RW", "RWAB"], "r": ["RB", "rb", "R"], "w": ["WB", "AB", "wb", "w"]}[m]
                if rng.random() < 0.15:
                    ms = ["WCB", "RW-zz", "RWE-B"]
                o = open_op(g, v, "b", rng.choice(ms), rng.random() < 0.2, 0)
                ops.append(dict(o, op="wrap", fd=h, how=rng.choice(["fileno", "name", "handle", "opener"])))
                if rng.random() < 0.1:
                    ops[-1].update(encoding="nope")
                if rng.random() < 0.7:
                    b = dict(offset=0, timeout=0)
                    ops.append(g.op("lock", f=v, **b))
                    if rng.random() < 0.5:
                        ops.append(g.op("unlock", f=v, offset=0))
                ops.append(g.op(rng.choice(["close", "drop"]), f=v))
        td["ops"] = ops

    def hopen(self, g, rng, hs):
        if rng.random() < 0.1:
            h = g.var("h")
            hs.append((h, "r"))
            return g.op("hopen", fd=h, path="sub", mode="r")
        h, m = g.var("h"), rng.choice(["rw", "r", "w"])
        hs.append((h, m))
        return g.op("hopen", fd=h, path=rng.choice(g.paths), mode=m)

    def after(self, g, rng, v, hs):
        x = rng.random()
        if x < 0.3:
            return self.hopen(g, rng, hs)
        if x < 0.45:
            return dict(g.op("close", f=v), keep=1)
        if x < 0.55:
            return g.op("lock", f=v, offset=0, timeout=0)
        if x < 0.62:
            return g.op("unlock", f=v, offset=0)
        if x < 0.7:
            return g.op("write", f=v, data="late")
        if x < 0.78:
            return g.op("read", f=v, n=rng.choice([0, 4]))
        m = rng.choice(["flush", "size", "tell", "fileno", "sync", "truncate", "unique_id", "times", "isatty", "handle",
                        "seekable", "readable", "__repr__", "__enter__", "detach"])
        if m == "truncate":
            return g.op("call", f=v, m=m, args=[3])
        return g.op("call", f=v, m=m)

    def valid(self, program):
        return True

    def monitors(self, program):
        return [Fds()]

    def final(self, w):
        m = next(m for m in w.monitors if isinstance(m, Fds))
        for p in w.procs.values():
            if p.dead:
                continue
            boxes = m.open_boxes(p)
            for fd, f in p.fds.items():
                if f.origin == "lib" and not any(b.fdgen == f.gen for b in boxes):
                    ino = f.ofd.inode
                    if m.blind(f.gen):
                        continue
                    if not any(b.inode is ino for b in boxes) and not any(l[0] == p.pid for l in ino.locks):
                        w.fail("descriptor leaked", "at the end, descriptor %s (%s) of %s is still open although every "
                               "stream of that file is closed" % (fd, f.ofd.path, p.name))
                        return

    def nontrivial(self, w):
        return True


PROP = C11()
