"""C20: the guarantees on Windows.  Programs of the other properties run over the simulated Win32 API."""
import copy
import errno as E
import random

from ..engine import Prop
from ..gens import LockGen, no_hold_and_wait
from ..lockmodel import LockModel
from ..solo import Solo
from ..winsim import CODES, errno_of
from ..world import mode_flags
from . import c01, c03, c04, c05, c06, c07, c08, c09, c11, c12, c13, c14, c16, c17

FAULTS = {"lockf": [(E.ENOLCK, 0.05), (E.EDEADLK, 0.05)], "close": [(E.EIO, 0.04)],
          "open": [(E.EMFILE, 0.03)], "lseek": [(E.EIO, 0.02)], "fstat": [(E.EIO, 0.02)]}


def walk(ops):
    for a in ops:
        yield a
        for b in walk(a.get("body", ())):
            yield b


def add_queries(rng, ops, n=0):
    """Calls which look at the handle, among those of the program."""
    k = 0
    while k < len(ops):
        a = ops[k]
        k += 1
        if a["op"] == "open" and rng.random() < 0.3:
            ops.insert(rng.randint(k, len(ops)), {"op": "call", "id": "q%d%s" % (n, a["id"]), "f": a["f"],
                                                  "m": rng.choice(["times", "times", "unique_id", "fileno", "handle"])})
            n += 1


def drop_syncs(ops, ro):
    ops[:] = [a for a in ops if not (a["op"] == "call" and a.get("m") == "sync" and a["f"] in ro)]
    for a in ops:
        drop_syncs(a.get("body", []), ro)


class Handles:
    """Win32 handles and C descriptors are closed exactly once, and none stays behind."""

    def __init__(self):
        self.stats, self.ids = {}, {}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def returned(self, t, r):
        w = self.world
        b = r.info.get("box")
        if r.exc is None and r.op in ("open", "rawio") and b is not None and b.fd in t.proc.fds:
            f = t.proc.fds[b.fd]
            if f.cloexec == bool(b.flags.get("inherit")):
                w.fail("wrong inheritance", "%s: its handle is %sinheritable" % (r.show(), "not " if f.cloexec else ""))
        if b is not None and b.inode is not None and r.ok and r.op == "call":
            m = r.a["m"]
            if m == "unique_id":
                if self.ids.setdefault(b.inode, r.val) != r.val or any(v == r.val and i is not b.inode
                                                                       for i, v in self.ids.items()):
                    w.fail("wrong identity", "%s: %s while this file was %r and others %r" % (
                        r.show(), r.val, self.ids[b.inode], list(self.ids.values())))
                self.stat("identities compared")
            elif m == "times" and "times0" in r.info:
                self.times(r, b)
        if r.exc is None and r.op == "open" and r.info.get("made"):
            for i in r.info["made"]:
                if bool(i.mode & 0o200) != bool(r.a.get("permissions", 0o777) & 0o200):
                    w.fail("wrong permissions", "%s created a file with permissions %o" % (r.show(), i.mode & 0o7777))
        if r.exc is not None and r.exc[1] is not None and w.program["sub"] in ("C12", "C13", "C14", "C16") and \
                r.op not in ("lock", "with_lock", "close", "drop") and not w.kernel.cfg.get("capacity"):
            fs = [(n, f[1]) for tn, o, n, f in w.sched.fault_log if tn == r.task and o == r.id and f[0] == "err"]
            if len(fs) == 1 and fs[0][0] in ("read", "write", "ftruncate", "fstat", "lseek", "open", "fsync"):
                want = errno_of(CODES.get(fs[0][1], 1117))
                self.stat("error codes compared")
                if r.exc[1] != want:
                    w.fail("wrong errno", "%s: the kernel failed %s with the equivalent of errno %d" % (r.show(), fs[0][0], want))
        for p in w.procs.values():
            if p.bad_closes:
                w.fail("closed twice", "after %s: handle or descriptor %r closed although not open" % (r.show(), p.bad_closes))

    def times(self, r, b):
        """The times reported are those of the file, at some moment of the call."""
        i = b.inode
        for what, got, now, old in (("access", r.val[0], i.atime, r.info["times0"][0]),
                                    ("modification", r.val[1], i.mtime, r.info["times0"][1])):
            if not min(old, now) / 1e9 - 1e-5 <= got <= max(old, now) / 1e9 + 1e-5:
                self.world.fail("wrong time", "%s: %s time %r while it was %r" % (r.show(), what, got, now / 1e9))
        self.stat("times compared")

    def start(self):
        self.next = self.world.kernel.on_create
        self.world.kernel.on_create = self.created

    def invoke(self, t, r):
        if r.op == "call" and r.a["m"] == "times":
            b = self.world.box(t, r.a["f"])
            if b is not None and b.inode is not None:
                r.info["times0"] = (b.inode.atime, b.inode.mtime)

    def created(self, proc, path, i):
        if self.next:
            self.next(proc, path, i)
        t = self.world.sched.current
        r = self.world.inflight.get(t.name) if t is not None else None
        if r is not None:
            r.info.setdefault("made", []).append(i)

    def finish(self, w):
        for p in w.procs.values():
            if p.dead:
                continue
            live = {b.fd for b in w.boxes.values() if b.proc is p and not b.closed and b.obj is not None}
            for fd, f in p.fds.items():
                if f.origin == "lib" and fd not in live:
                    w.fail("handle leaked", "at the end, handle %s (%s) of %s is still open" % (fd, f.ofd.path, p.name))
                    return
            for c, h in p.cfds.items():
                if h > 12 and c not in p.foreign and h not in live:
                    w.fail("descriptor leaked", "at the end, C descriptor %s (of handle %s) of %s is still open" % (c, h, p.name))
                    return
            self.stat("processes whose handles were all accounted for")


class WinLocks(Prop):
    """Lock programs, whose streams are unbuffered: locks are mandatory, so that buffers cannot be flushed at will."""

    def __init__(self, name, src, checks, **kw):
        self.id, self.src, self.checks, self.kw = name, src, checks, kw

    def gen(self, rng):
        kw = dict(self.kw)
        f = FAULTS if rng.random() < kw.pop("p_faults", 0.3) else None
        g = LockGen(rng, faults=f, p_misc=0.15, **kw)
        while True:
            if self.src is c04.PROP and rng.random() < 0.35:
                p = self.src.grid(g, rng)
            else:
                p = g.program()
            for t in p["tasks"]:
                t["ops"] = [a for a in t["ops"] if a["op"] != "exec"]
                for a in walk(t["ops"]):
                    if a["op"] in ("open", "wrap") and a["f"][0] != "z":
                        a["buffering"] = 0
                        a.pop("encoding", None)
                        m = a["mode"]
                        if "b" not in m and "B" not in m:
                            a["mode"] = m + ("b" if m.lower() == m else "B")
                    a.pop("text", None)
            if self.src is c05.PROP:
                if rng.random() < 0.06:
                    self.src.gone(g, rng, p)
                p["cfg"]["options"] = {"default_spinlock_delay": rng.choice([0.001, 0.01, 0.1, 0.3, 1.0])}
                if rng.random() < 0.4:
                    p["cfg"]["options"]["enforced_locking_timeout_value"] = rng.choice([0.05, 0.5, 1, 3.0, 20])
            if self.src is not c04.PROP or no_hold_and_wait(p):
                return p

    def valid(self, program):
        return self.src.valid(program)

    def must_end(self, program):
        return self.src.must_end(program)

    def monitors(self, program):
        return [LockModel(self.checks)]


class Same(Prop):
    """Programs of another property as they are, with its own oracle."""

    def __init__(self, src, drop=()):
        self.id, self.src, self.dropped = src.id, src, drop

    def gen(self, rng):
        p = self.src.gen(rng)
        p["cfg"].get("kernel", {}).pop("fullfsync", None)    # FlushFileBuffers() always empties the device cache too...
        for t in p["tasks"]:
            ro = {a["f"] for a in walk(t["ops"]) if "mode" in a and "f" in a and not mode_flags(a["mode"])["w"]}
            drop_syncs(t["ops"], ro)                         # ...but refuses handles without write access
            for a in t["ops"]:
                if a["op"] == "append_file":                 # appending is a seek and a write here
                    a["locking"], a["fixed"] = True, ["locking"]
        f = p["chooser"].get("faults")
        if f:
            f = {k: [x for x in v if x[0] != "short"] for k, v in f.items() if k not in self.dropped}
            f = {k: v for k, v in f.items() if v}
            p["chooser"] = dict(p["chooser"], faults=f)
            if not f:
                del p["chooser"]["faults"]
        return p

    def __getattr__(self, k):
        return getattr(self.src, k)

    def must_end(self, program):
        return self.src.must_end(program)

    def valid(self, program):
        return self.src.valid(program)

    def monitors(self, program):
        return self.src.monitors(program)

    def final(self, w):
        return self.src.final(w)

    def stats(self, w):
        return self.src.stats(w)


SUBS = {
    "C01": (WinLocks("C01", c01.PROP, {"excl"}), 3),
    "C04": (WinLocks("C04", c04.PROP, {"prompt"}, intr=0.1, p_kill=0.25, p_block=0.85, p_autolock=0.25, max_ops=7, far=0.03,
                     p_wrong_unlock=0.02), 2),
    "C05": (WinLocks("C05", c05.PROP, {"timing", "free"}, p_block=0.3, p_autolock=0.3, p_kill=0.1, far=0.05,
                     timeouts=[0, 0, 0.01, 0.1, 0.25, 1, 2.5, 7], sleeps=[0.01, 0.3, 0.9, 2.4], p_wrong_unlock=0.02,
                     p_lines=0.15), 2),
    "C06": (WinLocks("C06", c06.PROP, {"reentrant", "free", "survive", "exact"}, min_ops=5, max_ops=16, p_wrong_unlock=0.35,
                     illegal=0.2, p_block=0.15, p_autolock=0.1, p_with=0.2, far=0.15, whence=0.2, p_bad=0.25, p_share=0.5, p_wrap=0.2,
                     p_faults=0.2), 3),
    "C03": (WinLocks("C03", c03.PROP, {"exact", "free"}, intr=0.12, p_with=0.5, p_raise=0.45, p_kill=0.25, p_exit=0.1,
                     probe=True, p_block=0.5), 2),
    "C07": (Same(c07.PROP), 2),
    "C11": (Same(c11.PROP), 2),
    "C08": (Same(c08.PROP), 2),
    "C09": (Same(c09.PROP), 1),
    "C12": (Same(c12.PROP), 2),
    "C13": (Same(c13.PROP), 3),
    "C14": (Same(c14.PROP), 4),
    "C16": (Same(c16.PROP), 3),
    "C17": (Same(c17.PROP), 2),
}


class C20(Prop):
    id = "C20"
    quick = 12000
    thorough = 250000
    rule = ("Programs of C01, C03, C04, C05, C06 (with unbuffered streams), C07, C08, C09, C11, C12, C13, C14, C16 and C17, "
            "with their own oracles, run with rsfile's Windows backends (over ctypes and over pywin32) on a simulated Win32 API: handles, per-handle "
            "mandatory range locks, file pointers, write-through, C runtime descriptors over handles.")
    real = ["rsfileio_abstract, rsfileio_windows, rsbackend.windows_ctypes, rsbackend.windows_pywin32 and the platform-neutral "
            "modules, unmodified", "the stdlib's _pyio"]
    stub = ["Win32 kernel32 API, C runtime descriptors, ctypes / pywin32 / msvcrt modules", "clocks and sleeping",
            "threading primitives", "thread scheduling"]

    def gen(self, rng):
        names = [k for k, (s, n) in SUBS.items() for _ in range(n)]
        k = rng.choice(names)
        s = SUBS[k][0]
        while True:
            p = s.gen(rng)
            if not any(a["op"] in ("fork", "hread", "hwrite", "push", "pull") for t in p["tasks"] for a in walk(t["ops"])):
                break
        if rng.random() < 0.1:
            p["cfg"]["std"] = {x: rng.choice([[], [1, 2]]) for x in p["procs"]}
        if rng.random() < 0.5:
            for t in p["tasks"]:
                add_queries(rng, t["ops"])
        p["sub"] = k
        p["cfg"]["flavour"] = rng.choice(["win-ctypes", "win-pywin32"])
        return p

    @staticmethod
    def sub(program):
        return SUBS[program["sub"]][0]

    def must_end(self, program):
        return self.sub(program).must_end(program)

    def valid(self, program):
        return self.sub(program).valid(program)

    def monitors(self, program):
        return list(self.sub(program).monitors(program)) + [Handles()]

    def final(self, w):
        self.sub(w.program).final(w)
        if w.violation is None and w.program["sub"] != "C12":
            next(m for m in w.monitors if isinstance(m, Handles)).finish(w)

    def stats(self, w):
        d = dict(self.sub(w.program).stats(w))
        d["programs of " + w.program["sub"]] = 1
        return d

    def nontrivial(self, w):
        return True


PROP = C20()
