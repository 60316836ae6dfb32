"""C18: only streams opened inheritable leak into executed programs."""
import errno as E

from ..engine import Prop, walk_ops
from ..world import mode_flags
from .c11 import OPENING, PROP as C11PROP


def opens_inheritable(r):
    if r.op in ("open", "wrap"):
        return mode_flags(r.a["mode"])["inherit"]
    if r.op == "rawio":
        return bool(r.a["kw"].get("inheritable"))
    return False


class Inherit:
    """After every kernel call: what would a program executed now, by that process, inherit?"""

    def __init__(self):
        self.stats = {}
        self.opener = {}     # gen of a descriptor -> the call which opened it
        self.supplied = {}   # gen -> (cloexec, status flags) of descriptors supplied by the application
        self.moving = set()  # copied by a fork while some call was deciding upon them

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def invoke(self, t, r):
        r.info.setdefault("x0", self.world.kernel.gen)
        if r.op == "wrap":
            h = getattr(t.proc, "hfds", {}).get(r.a["fd"])
            if h in t.proc.fds:
                f = t.proc.fds[h]
                self.supplied.setdefault(f.gen, (f.cloexec, f.ofd.flags))

    def on_syscall(self, t, name):
        w = self.world
        if t.harness or w.violation:
            return
        if name in ("open", "dup"):
            r = w.inflight.get(t.name)
            if r is not None and t.proc.opened:
                self.opener.setdefault(t.proc.opened[-1][0], r)
        self.check(t.proc, "after %s() of %s" % (name, t.name))

    def returned(self, t, r):
        if t.proc.dead or self.world.violation:
            return
        self.check(t.proc, "when %s returned" % r.show())

    def forked(self, parent, child):
        self.index(parent)
        for fd, f in child.fds.items():
            p = parent.fds[fd]
            if p.gen in self.opener:
                self.opener[f.gen] = self.opener[p.gen]
            if p.gen in self.supplied:
                self.supplied[f.gen] = self.supplied[p.gen]
            # (streams in use by other threads when the process forked are lost to the child)
            lost = p.gen in self.boxes and not any(b.fdgen == f.gen for b in self.world.boxes.values())
            if p.gen in self.moving or lost or self.decided(parent, p)[0] is None:
                self.moving.add(f.gen)

    def decided(self, proc, f):
        """Whether the descriptor has to be inherited: True, False or None (being decided), and why."""
        w = self.world
        b = self.boxes.get(f.gen)
        if f.gen in self.moving and b is None:
            return None, ""
        if b is None:
            r = self.opener.get(f.gen)
            if r is not None and w.inflight.get(r.task) is r:
                return (None, "") if opens_inheritable(r) else (False, "it is being opened by %s" % r.show())
            for n, o in w.inflight.items():
                if o.op in ("close", "drop") and o.info.get("fdgen") == f.gen:
                    return (None, "") if o.info["inh"] else (False, "it is being closed by %s" % o.show())
            return False, "no stream owns it" + ("" if r is None else "; it was opened by %s" % r.show())
        if b.busy:
            return (None, "") if b.flags["inherit"] else (False, "stream %s was not opened inheritable" % b.var)
        if b.flags["inherit"]:
            return True, "stream %s was opened inheritable" % b.var
        return False, "stream %s was not opened inheritable" % b.var

    def index(self, proc):
        w = self.world
        self.boxes = {}
        closing = set()
        for o in w.inflight.values():
            if o.proc != proc.name:
                continue
            if o.op in ("close", "drop"):
                b = o.info.get("box") or w.boxes.get((proc.name, o.a["f"]))
                if b is not None:
                    closing.add(id(b))
                    o.info["fdgen"], o.info["inh"] = b.fdgen, b.flags["inherit"]
        for b in w.boxes.values():
            if b.proc is proc and not b.closed and b.obj is not None:
                b.busy = id(b) in closing
                if not b.wrapped:
                    self.boxes[b.fdgen] = b
        return closing

    def check(self, proc, when):
        w = self.world
        closing = self.index(proc)
        if self.boxes:
            for b in self.boxes.values():
                f = proc.fds.get(b.fd)
                if not b.busy and b.flags["inherit"] and (f is None or f.gen != b.fdgen or f.cloexec):
                    w.fail("inheritable stream not inherited", "%s, a program executed by %s would not inherit descriptor %s of "
                           "stream %s, which was opened inheritable" % (when, proc.name, b.fd, b.var))
                    return
        open_wraps = {b.fdgen for b in w.boxes.values() if b.proc is proc and b.wrapped and not b.closed and b.closefd
                      and id(b) not in closing}
        for fd, f in proc.fds.items():
            if f.gen in self.supplied:
                was = self.supplied[f.gen]
                if f.gen in open_wraps or self.unowned(proc, f.gen):
                    if (f.cloexec, f.ofd.flags) != was:
                        w.fail("supplied descriptor changed", "%s, descriptor %s supplied for wrapping went from "
                               "(cloexec, flags) %r to %r" % (when, fd, was, (f.cloexec, f.ofd.flags)))
                        return
                elif not f.cloexec and not was[0] and self.kept(proc, f.gen):
                    w.fail("kept descriptor leaks", "%s, descriptor %s, which belonged to a stream that is closed now, would be "
                           "inherited by an executed program" % (when, fd))
                    return
                continue
            if f.cloexec or f.origin != "lib":
                continue
            must, why = self.decided(proc, f)
            self.stat("inheritable descriptors seen")
            if must is False:
                w.fail("descriptor leaks", "%s, descriptor %s (%s) of %s would be inherited by an executed program, but %s" % (
                    when, fd, f.ofd.path, proc.name, why))
                return
        self.stat("exec views checked")

    def unowned(self, proc, gen):
        """Supplied, and never handed over."""
        return gen in {proc.fds[h].gen for h in getattr(proc, "hfds", {}).values() if h in proc.fds}

    def kept(self, proc, gen):
        """Was it handed over to a stream which is closed by now (nothing in flight)?"""
        w = self.world
        for o in w.inflight.values():
            if o.proc == proc.name and (o.op in ("close", "drop", "wrap")):
                return False
        for r in w.history:
            if r.op == "wrap" and r.proc == proc.name and r.info.get("gen") == gen and r.a.get("closefd", True) and r.ok:
                b = r.info.get("box")
                if b is not None and b.closed:
                    return True
        return False


FAULTS = {"write": [(E.ENOSPC, 0.2), ("short", 0.1)], "lockf": [(E.ENOLCK, 0.1), (E.EDEADLK, 0.05)], "unlockf": [(E.ENOLCK, 0.08)],
          "lseek": [(E.EIO, 0.05)], "fstat": [(E.EIO, 0.08)], "close": [(E.EIO, 0.1)],
          "open": [(E.EMFILE, 0.08)], "ftruncate": [(E.EIO, 0.1)]}


class C18(Prop):
    id = "C18"
    quick = 15000
    thorough = 300000
    rule = ("Programs of up to four threads in up to two processes (and children they fork) that open streams of every kind with and "
            "without the I flag, wrap descriptors (inheritable or not, owned or not), lock, fail to open, close while other "
            "locks keep descriptors open, with kernel failures. After every single kernel call the set of descriptors which a program executed at that "
            "moment would inherit is compared with the set of live streams opened inheritable.")

    def gen(self, rng):
        p = C11PROP.gen(rng)
        g = C11PROP.lastgen
        q = rng.choice([0.15, 0.4, 0.7])
        for ops, k in list(walk_ops(p)):
            a = ops[k]
            if a["op"] in ("open", "wrap") and a["mode"].upper() == a["mode"] and "I" not in a["mode"] and rng.random() < q:
                a["mode"] = a["mode"].replace("B", "IB", 1) if "B" in a["mode"] else a["mode"] + "I"
            elif a["op"] == "rawio" and rng.random() < q:
                a["kw"] = dict(a["kw"], inheritable=True)
            elif a["op"] == "hopen" and rng.random() < 0.5:
                a["inheritable"] = True
        p["cfg"].pop("std", None)
        if rng.random() < 0.6:
            keys = [k for k in FAULTS if rng.random() < 0.5]
            p["chooser"]["faults"] = {k: FAULTS[k] for k in keys}
            p["chooser"]["max_faults"] = rng.choice([1, 2, 4])
        else:
            p["chooser"].pop("faults", None)
        # (setting the inheritability of an open descriptor cannot fail)
        if rng.random() < 0.4:
            td = rng.choice(p["tasks"])
            k = rng.randint(0, len(td["ops"]))
            seen = {a["f"] for a in td["ops"][:k] if a["op"] in ("open", "wrap", "rawio") and "f" in a}
            ops = []
            for v in sorted(seen):
                x = rng.random()
                if x < 0.4:
                    ops.append(g.op("close", f=v))
                elif x < 0.6:
                    ops.append(g.op("lock", f=v, offset=0, timeout=0))
            v = g.var("c")
            ops.append(g.op("open", f=v, path=rng.choice(sorted(p["files"])), mode=rng.choice(["RWB", "RWIB", "RB"]), locking=False,
                            buffering=0, thread_safe=False))
            td["ops"].insert(k, g.op("fork", child="C0", task={"name": "F0", "ops": ops}))
        return p

    def monitors(self, program):
        return [Inherit()]

    def nontrivial(self, w):
        return True


PROP = C18()
