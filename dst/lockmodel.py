"""The reference model of locks, checked while a run proceeds.

The model only knows what callers were told: a lock is held from the return of a successful lock call until the
invocation of the call that releases it (or the death of the process)."""
import errno as E

from . import kernel as K
from .sched import NS
from .world import mode_flags

OVER = K.Kernel.overlap
ITERATING = "telling position disabled by next() call"     # a limit of the standard library's text streams
LOCK_EXC = ("LockingException", "OSError", "BlockingIOError", "PermissionError", "InterruptedError")


class Held:
    __slots__ = ("box", "proc", "pid", "inode", "s", "e", "excl", "rec", "state", "gone", "fuzzy")

    def __init__(self, box, proc, inode, s, e, excl, rec):
        self.box, self.proc, self.pid, self.inode = box, proc, proc.pid, inode
        self.s, self.e, self.excl, self.rec = s, e, excl, rec
        self.state = "held"   # trying, held, releasing, limbo, gone
        self.fuzzy = False    # its exact range is unknown (the file was resized during a call relative to its end)

    def __repr__(self):
        return "%s lock [%s, %s) of %s/%s (%s)" % ("exclusive" if self.excl else "shared", self.s,
                                                   "inf" if self.e is None else self.e, self.proc.name, self.box.var
                                                   if self.box else "?", self.state)


def union_covers(segs, s, e):
    """Is [s,e) inside the union of segs?"""
    at = s
    for a, b in sorted(segs, key=lambda x: x[0]):
        if a > at:
            break
        if b is None:
            return True
        if b > at:
            at = b
        if e is not None and at >= e:
            return True
    return e is not None and at >= e


class LockModel:
    """checks: subset of excl, survive, exact, reentrant, free (attempts without conflict must succeed), internal."""

    def __init__(self, checks=()):
        self.checks = set(checks)
        self.locks = []        # every model lock not gone
        self.active = {}       # rec -> list of Held it is about
        self.stats = {}
        self.world = None

    def start(self):
        self.world.kernel.on_create = self.created

    def created(self, proc, path, i):
        """Openings of a file which did not exist when they were invoked are now about this one."""
        w = self.world
        for r in w.inflight.values():
            x = r.info.get("x")
            if x is not None and x.inode is None and r.a.get("path") and w.kernel.norm(r.a["path"]) == w.kernel.norm(path):
                x.inode = i
                self.begin_try(r, x)

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # ---- helpers
    def fail(self, sig, text):
        self.world.fail(sig, text)

    def rel_range(self, a, base):
        off = a.get("offset") or 0
        s = base + off
        n = a.get("length")
        return s, (None if not n else s + n)

    def conflicting(self, x, states=("held",)):
        out = []
        for h in self.locks:
            if h is x or h.inode is not x.inode or h.state not in states:
                continue
            if same_handle(h.box, x.box):
                continue
            if (h.excl or x.excl) and OVER(h.s, h.e, x.s, x.e):
                out.append(h)
        return out

    def same_over(self, x, states):
        return [h for h in self.locks if h is not x and h.state in states and h.inode is x.inode and h.box is not None
                and (h.box is x.box or same_handle(h.box, x.box)) and OVER(h.s, h.e, x.s, x.e)]

    def drop(self, h):
        h.state = "gone"
        if h in self.locks:
            self.locks.remove(h)
        if "timing" in self.checks or "prompt" in self.checks:
            for x in self.locks:
                if x.state == "trying" and (h.excl or x.excl) and x.inode is h.inode and OVER(h.s, h.e, x.s, x.e):
                    x.rec.info["last_conf"] = self.world.sched.now

    # ---- history
    def invoke(self, t, r):
        w = self.world
        a = r.a
        op = r.op
        if op in ("lock", "unlock"):
            b = w.boxes.get((r.proc, a["f"]))
            if b is None or b.inode is None:
                return
            wh = a.get("whence", 0)
            base = 0
            if wh == 1:
                base = b.meta.get("pos")
                if base is None:
                    r.info["unknown"] = True
                    return
            elif wh == 2:
                base = len(b.inode.data)
                r.info["resizes"] = b.inode.resizes
            s, e = self.rel_range(a, base)
            if op == "lock":
                sh = a.get("shared")
                excl = b.writable if sh is None else not sh
                x = Held(b, t.proc, b.inode, s, e, excl, r)
                x.state = "trying"
                r.info["x"] = x
                if s < 0 or (excl and not b.writable) or (not excl and not b.readable):
                    r.info["illegal"] = True
                    return
                r.info["own_inv"] = self.same_over(x, ("held",))
                if wh == 2:
                    r.info["rng"] = (s, e)
                    x.s, x.e = 0, None  # until the call returns, it might be about any range
                self.begin_try(r, x)
            else:
                r.info["urange"] = (s, e)
                own = [h for h in self.locks if h.state == "held" and (h.box is b or same_handle(h.box, b))
                       and h.inode is b.inode and h.s == s and h.e == e]
                r.info["own"] = own[:1]
                r.info["maybe"] = any(h.state in ("trying", "releasing", "limbo") and
                                      (h.box is b or same_handle(h.box, b)) for h in self.locks)
                for h in own[:1]:
                    h.state = "releasing"
                if not own:
                    r.info["late"] = (s, e)
        elif op == "exit":
            h = r.info["lock"].info.get("x")
            r.info["own"] = []
            if h is not None:
                r.info["urange"] = (h.s, h.e)
            if h is not None and h.state == "held":
                h.state = "releasing"
                r.info["own"] = [h]
            else:
                r.info["stale"] = True   # unlocked by someone else meanwhile, and perhaps locked again
                if h is not None and not h.fuzzy:
                    for k in [k for k in self.locks if k.state == "held" and (k.s, k.e) == (h.s, h.e)
                              and k.inode is h.inode and same_handle(k.box, h.box)][:1]:
                        k.state = "releasing"
                        r.info["own"] = [k]
        elif op in ("close", "drop"):
            b = w.boxes.get((r.proc, a["f"]))
            if b is not None:
                r.info["closing"] = b
                own = [h for h in self.locks if (h.state == "held" or h.fuzzy) and (h.box is b or (
                    same_handle(h.box, b) and h.proc is b.proc))]
                for h in own:
                    h.state = "releasing"
                r.info["own"] = own
        elif op in ("open", "wrap", "read_file", "write_file", "append_file", "wrapper_io"):
            lk = a.get("locking", True) and op != "wrapper_io"
            p = a.get("path")
            if op == "wrap":
                fd = getattr(t.proc, "hfds", {}).get(a["fd"])
                i = w.inode_of(t.proc, fd) if fd is not None else None
            else:
                i = w.kernel.names.get(w.kernel.norm(p)) if p else None
            if lk:
                excl = mode_flags(a["mode"])["w"] if "mode" in a else op != "read_file"
                x = Held(None, t.proc, i, 0, None, excl, r)
                x.state = "trying"
                r.info["x"] = x
                if i is not None:
                    self.begin_try(r, x)
                else:
                    r.info["conf"] = True

    def timing(self, t, r, x):
        """Elapsed time of a lock attempt (or of an opening which locks)."""
        w = self.world
        a, exc = r.a, r.exc
        if exc is not None and "KeyboardInterrupt" in exc[3] or closed_error(exc or ("", 0, "", ())):
            return
        own = a.get("timeout")
        opts = x.box.opts if x is not None and x.box is not None else t.proc.options
        delay = opts["default_spinlock_delay"]
        limit = own if own is not None else opts["enforced_locking_timeout_value"]
        if limit is None:
            return
        gone = (r.t1 - r.t0) / NS
        over = exc is not None and exc[0] == "LockingException" if own is not None else \
            exc is not None and exc[0] == "RuntimeError" and "enforced" in exc[2]
        slack = 0.1 + w.cfg.get("tick", 0) / NS + (w.sched.total_delay - r.info.get("delay0", 0)) / NS
        self.stat("timed attempts")
        if exc is not None and own is None and exc[0] in ("LockingException", "BlockingIOError", "PermissionError"):
            self.fail("wrong error", "a lock call without timeout, under the global limit of %s s, raised %s" % (limit, exc))
        if exc is None or over:
            if gone > limit + delay + slack:
                self.fail("gave up too late" if exc else "granted too late", "%s after %.6f s: %s" % (
                    "gave up" if exc else "granted", gone, self.describe(r, limit, delay)))
        if own == 0 and gone > slack:
            self.fail("waited although timeout=0", "%.6f s: %s" % (gone, self.describe(r, limit, delay)))
        if own == 0:
            for s in w.sleeps:
                if s[0] == r.task and s[1] == r.id:
                    self.fail("waited although timeout=0", "slept %s s: %s" % (s[2], r.show()))
        if over:
            self.stat("timeouts expired")
            if gone < limit - 1e-6 - w.cfg.get("tick", 0) / NS:
                self.fail("gave up too early", "gave up after only %.6f s: %s" % (gone, self.describe(r, limit, delay)))
            if limit > 0 and not self.faulted(r) and x is not None and x.inode is not None:
                live = self.conflicting(x, ("held", "releasing", "limbo", "trying"))
                last = r.info.get("last_conf")
                end = r.t0 / NS + limit
                if not live and (last is None or last / NS < end - delay - slack) and "conf" in r.info:
                    self.fail("gave up although free", "the last rival was gone %s: %s" % (
                        "before the call" if last is None else "%.6f s before the deadline" % (end - last / NS),
                        self.describe(r, limit, delay)))

    def prompt(self, t, r, x):
        """A blocked request is granted as soon as nothing stands in its way (or after one retry delay)."""
        w = self.world
        if r.a.get("timeout") is not None or "conf" not in r.info:
            return
        if self.conflicting(x, ("releasing", "limbo", "trying")):
            return
        since = max(r.t0, r.info.get("last_conf") or 0)
        delay = t.proc.options["default_spinlock_delay"]
        n = 1 + sum(1 for f in w.sched.fault_log if f[0] == r.task and f[1] == r.id)
        late = (r.t1 - since) / NS
        self.stat("blocking grants")
        if late > delay * n + 0.1 + (w.sched.total_delay - r.info.get("delay0", 0)) / NS:
            self.fail("granted too late", "granted %.3f s after nothing conflicting was held or wanted any more: %s" % (
                late, r.show()))

    @staticmethod
    def describe(r, limit, delay):
        return "%s (limit %s s, retry delay %s s)" % (r.show(), limit, delay)

    def begin_try(self, r, x):
        r.info["delay0"] = self.world.sched.total_delay
        st = ("held", "releasing", "limbo", "trying")
        r.info["conf"] = bool(self.conflicting(x, st))
        r.info["own_any"] = bool(self.same_over(x, st))
        for h in self.locks:  # those already trying see a new competitor
            if h.state == "trying" and h.inode is x.inode:
                if same_handle(h.box, x.box):
                    if OVER(h.s, h.e, x.s, x.e):
                        h.rec.info["own_any"] = True
                elif (h.excl or x.excl) and OVER(h.s, h.e, x.s, x.e):
                    h.rec.info["conf"] = True
        self.locks.append(x)

    def moved(self, r, exc):
        """A buffered stream cannot give back its read-ahead once another holder of the file position moved it (stdlib)."""
        b = r.info.get("box")
        return exc[1] == 22 and b is not None and (b.meta.get("forked") or any(
            o.ofd is b.ofd and o is not b for o in self.world.boxes.values()))

    def rivals(self, r):
        return [o for o in self.world.inflight.values() if o is not r and o.op in ("unlock", "exit") and r.info.get("urange")
                and o.info.get("urange") == r.info["urange"] and same_handle(o.info.get("box"), r.info.get("box"))
                and not any(h in self.locks for h in o.info.get("own", ()))]

    def faulted(self, r, names=None):
        """Was a fault injected into this operation?"""
        for tn, o, name, f in self.world.sched.fault_log:
            if tn == r.task and o == r.id and f[0] == "err" and (names is None or name in names):
                return True
        return False

    def returned(self, t, r):
        w = self.world
        a = r.a
        op = r.op
        if r.skipped and op != "with_lock":
            x = r.info.get("x")
            if x is not None:
                self.drop(x)
            for h in r.info.get("own", ()):
                h.state = "held"
            return
        exc = r.exc
        if op == "lock":
            x = r.info.get("x")
            if x is None:
                return
            if "timing" in self.checks and not r.info.get("illegal"):
                self.timing(t, r, x)
            if exc is None:
                self.stat("locks granted")
                if "prompt" in self.checks:
                    self.prompt(t, r, x)
                if a.get("whence", 0) == 2 and x.inode.resizes != r.info["resizes"]:
                    # relative to an end of file that moved during the call: nobody can tell the exact range
                    x.s, x.e, x.state, x.fuzzy = 0, None, "limbo", True
                    return
                if "rng" in r.info:
                    x.s, x.e = r.info["rng"]
                if r.info.get("illegal"):
                    if "reentrant" in self.checks:
                        self.fail("illegal lock granted", "%s granted although it cannot be" % (x,))
                    return
                if "reentrant" in self.checks:
                    own = self.same_over(x, ("held",))
                    if own:
                        self.fail("reentrant lock granted", "%s granted while the same handle holds %s" % (x, own[0]))
                if "excl" in self.checks:
                    c = self.conflicting(x)
                    if c:
                        self.fail("two conflicting locks", "%s granted while %s is held" % (x, c[0]))
                if r.info.get("gone") or x.box.closed:  # released again, by another thread, before this call even returned
                    self.drop(x)
                    return
                x.state = "held"
                for o in w.inflight.values():  # a close of the stream, by another thread, is about to release it
                    if o.op in ("close", "drop") and same_handle(o.info.get("box") or o.info.get("closing"), x.box):
                        x.state = "releasing"
                        o.info.setdefault("own", []).append(x)
                    if o.op in ("unlock", "exit") and o.info.get("urange") == (x.s, x.e) and \
                            same_handle(o.info.get("box"), x.box) and not any(h in self.locks for h in o.info.get("own", ())):
                        x.state = "releasing"   # an unlock already under way might be about this very lock
                        o.info["late"] = (x.s, x.e)
                        o.info.setdefault("own", []).append(x)
                if "survive" in self.checks:
                    self.check_survive(t, "lock")
            else:
                self.drop(x)
                if r.info.get("illegal"):
                    if "reentrant" in self.checks and not ("OSError" in exc[3] or "ValueError" in exc[3]
                                                           or "RuntimeError" in exc[3]):
                        self.fail("wrong error", "%s refused with %s" % (x, exc))
                    return
                self.refused(t, r, x, exc)
        elif op in ("unlock", "exit"):
            own = r.info.get("own", [])
            if r.info.get("unknown"):
                return
            if op == "unlock" and "resizes" in r.info and r.info["box"].inode.resizes != r.info["resizes"]:
                for h in own:
                    h.state = "held"
                if exc is not None and self.faulted(r):
                    for h in self.locks:    # one of them, who knows which, might never be released by the kernel
                        if h.state == "held" and same_handle(h.box, r.info["box"]):
                            h.state, h.fuzzy = "limbo", False
                if exc is None:
                    for h in self.locks:
                        if h.state == "held" and h.box is r.info["box"]:
                            h.state, h.fuzzy = "limbo", True
                return
            own = [h for h in own if h in self.locks]
            if exc is None:
                if own:
                    self.drop(own[0])
                    for h in own[1:]:
                        h.state = "held"
                    self.stat("locks released")
                else:
                    # another call was at work on the same range: this one was the quicker
                    box = r.info.get("box")
                    rng = r.info.get("urange")
                    same = [h for h in self.locks if (h.s, h.e) == rng and h.box is not None and same_handle(h.box, box)]
                    done = [h for h in same if h.state in ("held", "releasing", "limbo")]
                    trying = [h for h in same if h.state == "trying" and not h.rec.info.get("gone")]
                    mine = r.info["lock"].info.get("x") if op == "exit" else None
                    if mine in done:
                        self.drop(mine)
                    elif len(done) > 1 and any(h.fuzzy for h in done):
                        pass   # one of them, who knows which
                    elif done:
                        self.drop(done[0])
                    elif trying:
                        trying[0].rec.info["gone"] = True
                    elif not r.info.get("maybe") and not r.info.get("stale") and "reentrant" in self.checks:
                        self.fail("unlock of a range not held", "unlock succeeded: %s" % r.show())
            else:
                if self.faulted(r):     # the kernel might never let go of a lock whose range is unknown
                    for h in self.locks:
                        if h.fuzzy and same_handle(h.box, r.info.get("box")):
                            h.fuzzy = False
                if own:
                    b = r.info.get("box")
                    if closed_error(exc) and b is not None and (b.closed or b.obj is None or any(
                            o.info.get("closing") is b for o in w.inflight.values())):
                        for h in own:
                            self.drop(h)   # the close released it
                    elif "late" in r.info and "RuntimeError" in exc[3]:
                        for h in own:
                            if not any(h in o.info.get("own", ()) for o in w.inflight.values() if o is not r):
                                h.state = "held"
                    elif "RuntimeError" in exc[3] and self.rivals(r):
                        for o in self.rivals(r):   # another unlock of the same range, still under way, was quicker
                            o.info.setdefault("own", []).extend(own)
                            o.info["late"] = r.info["urange"]
                    elif self.faulted(r) or self.moved(r, exc):
                        for h in own:
                            h.state = "limbo"
                    elif "exact" in self.checks or "reentrant" in self.checks:
                        self.fail("release failed", "%s raised %s while releasing %s" % (op, exc, own[0]))
                else:
                    if "reentrant" in self.checks and not r.info.get("stale") and not r.info.get("maybe") \
                            and "RuntimeError" not in exc[3] and not self.faulted(r) and not closed_error(exc) \
                            and not self.moved(r, exc):
                        neg = (a.get("offset") or 0) < 0
                        if not (neg and "ValueError" in exc[3]):
                            self.fail("wrong error", "unlock of a range not held raised %s" % (exc,))
        elif op == "badlock":
            if "reentrant" in self.checks:
                self.stat("wrong calls")
                if exc is None:
                    self.fail("wrong arguments accepted", r.show())
                elif not self.faulted(r) and "KeyboardInterrupt" not in exc[3] and "ValueError" not in exc[3] and \
                        "TypeError" not in exc[3] and exc[2] != ITERATING and not self.moved(r, exc):
                    self.fail("wrong error", "%s, a call with wrong arguments" % r.show())
        elif op in ("close", "drop"):
            own = r.info.get("own", [])
            for h in own:
                if exc is not None and self.faulted(r) or self.limbo_faults(r):
                    h.state, h.fuzzy = "limbo", False
                else:
                    self.drop(h)
                    self.stat("locks released")
        elif op in ("open", "wrap", "wrapper_io", "rawio"):
            x = r.info.get("x")
            b = r.info.get("box")
            if x is not None and "timing" in self.checks:
                self.timing(t, r, x)
            if x is not None and x in self.locks:
                self.locks.remove(x)
            if b is not None and b.inode is not None:
                b.meta["pos"] = b.ofd.pos
                if b.wrapped or a.get("shared_var"):
                    b.meta["pos"] = None
            if exc is None and x is not None and b is not None and b.inode is not None and b.inode.kind == "f":
                if "prompt" in self.checks:
                    self.prompt(t, r, x)
                x.box, x.inode, x.state = b, b.inode, "held"
                if "excl" in self.checks:
                    c = self.conflicting(x)
                    if c:
                        self.fail("two conflicting locks", "opening with locking took %s while %s is held" % (x, c[0]))
                self.locks.append(x)
                self.stat("locks granted")
                if "survive" in self.checks:
                    self.check_survive(t, "open")
            elif exc is not None and x is not None and x.inode is not None:
                self.drop(x)
                self.refused(t, r, x, exc)
        elif op in ("read_file", "write_file", "append_file"):
            x = r.info.get("x")
            if x is not None and x in self.locks:
                if self.faulted(r, ("unlockf",)):
                    x.state = "limbo"   # the kernel refused to release it
                else:
                    self.drop(x)
        elif op in ("seek", "read", "write", "call"):
            b = r.info.get("box")
            if b is not None and b.meta.get("pos") is not None:
                if exc is not None:
                    b.meta["pos"] = None
                elif op == "seek" and a.get("whence", 0) == 0 and not a.get("text"):
                    b.meta["pos"] = a["n"]
                elif op == "write" and b.flags["binary"] and isinstance(r.val, int) and not b.flags["a"]:
                    b.meta["pos"] += r.val
                elif op == "read" and b.flags["binary"] and isinstance(r.val, bytes):
                    b.meta["pos"] += len(r.val)
                elif op != "call":
                    b.meta["pos"] = None
        if "exact" in self.checks:
            self.check_exact(t.proc, r)

    def limbo_faults(self, r):
        return r.op == "drop" and (self.faulted(r) or not r.info.get("collected"))

    def refused(self, t, r, x, exc):
        self.stat("locks refused")
        a = r.a
        intr = "KeyboardInterrupt" in exc[3]
        b = r.info.get("box")
        if exc[1] == E.EBADF and b is not None and b.fd not in t.proc.fds:    # (the application has closed it itself)
            self.stat("lock attempts on descriptors which are gone")
            return
        if intr or self.faulted(r) or closed_error(exc) or self.moved(r, exc):
            return
        if r.op == "lock" and exc[2] == ITERATING:    # so that what was read in advance cannot be given back
            return
        rt = "RuntimeError" in exc[3] and "enforced" not in exc[2]
        if "reentrant" in self.checks and r.op == "lock":
            if rt and not r.info.get("own_any"):
                self.fail("spurious reentrancy error", "%s raised %s although its handle holds nothing there" % (x, exc))
            own = [h for h in r.info.get("own_inv", ()) if h.state == "held"]
            if own and not rt and x.inode.resizes == r.info.get("resizes", x.inode.resizes):
                self.fail("reentrant attempt not reported", "%s raised %s, expected RuntimeError: the handle holds %s" %
                          (x, exc, own[0]))
            if not rt and "OSError" not in exc[3] and "RuntimeError" not in exc[3]:
                self.fail("wrong error", "lock attempt raised %s" % (exc,))
        if "free" in self.checks and not rt and not r.info.get("conf", True) and "OSError" in exc[3]:
            if r.op in ("open", "wrap") and exc[0] not in ("LockingException", "BlockingIOError", "PermissionError"):
                return
            if r.op == "open" and r.exc[1] not in (1, 11, 13):
                return
            self.fail("free range refused", "%s was refused with %s although nothing conflicting was held or wanted "
                                            "at any time during the call" % (x, exc))

    def forked(self, parent, child):
        self.stat("forks")
        for b in self.world.boxes.values():
            if b.proc is parent or b.proc is child:
                b.meta["forked"] = True
        for b in self.world.boxes.values():
            if b.proc is parent or b.proc is child:
                b.meta["pos"] = None   # the offset is shared from now on

    def killed(self, p):
        for h in list(self.locks):
            if h.pid == p.pid:
                self.drop(h)

    # ---- kernel state against the model
    def on_syscall(self, t, name):
        if name in ("lockf", "unlockf", "close") and "survive" in self.checks:
            self.check_survive(t, name)

    def check_survive(self, t, name):
        k = self.world.kernel
        for h in self.locks:
            if h.state == "held" and not k.held_cover(h.inode, h.pid, h.s, h.e, h.excl):
                if any(o.op == "unlock" and same_handle(o.info.get("box"), h.box) and
                       o.info.get("resizes", h.inode.resizes) != h.inode.resizes for o in self.world.inflight.values()):
                    h.state, h.fuzzy = "limbo", True   # an unlock relative to an end of file that moved might be about it
                    continue
                self.fail("held lock lost", "%s is no longer enforced by the kernel after %s by %s" % (h, name, t.name))

    def check_exact(self, proc, r):
        """Kernel locks of the process must all be accounted for."""
        if proc.dead:
            return
        for i in self.world.kernel.all_inodes():
            if i.kind != "f":
                continue
            mine = [l for l in i.locks if l[0] == proc.pid]
            if not mine:
                continue
            acc = [(h.s, h.e) for h in self.locks if h.pid == proc.pid and h.inode is i]
            acx = [(h.s, h.e) for h in self.locks if h.pid == proc.pid and h.inode is i and h.excl]
            wild = any(o.proc == proc.name and o.op in ("open", "wrap", "rawio", "read_file", "write_file", "append_file",
                                                        "close", "drop")
                       for o in self.world.inflight.values())
            if wild:
                continue
            for p, s, e, x in (l[:4] for l in mine):
                if not union_covers(acc, s, e):
                    self.fail("lock not released", "the kernel still holds %s [%s, %s) of %s for %s after %s, "
                              "but the process owns only %s" % ("exclusive" if x else "shared", s, e, i.ino, proc.name,
                                                                r.show(), [repr(h) for h in self.locks if h.pid == proc.pid]))
                if x and not union_covers(acx, s, e):
                    self.fail("lock stronger than asked", "the kernel holds exclusive [%s, %s) for %s after %s" % (
                        s, e, proc.name, r.show()))


def closed_error(exc):
    return "ValueError" in exc[3] and "closed" in exc[2]


def same_handle(a, b):
    if a is None or b is None:
        return False
    if a is b:
        return True
    return a.proc is b.proc and a.fd is not None and a.fd == b.fd and a.inode is b.inode and a.fdgen == b.fdgen
