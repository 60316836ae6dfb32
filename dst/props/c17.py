"""C17: opening is atomic and a failed opening is harmless."""
import errno as E

from ..engine import Prop
from ..gens import Gen
from ..solo import cut
from ..world import mode_flags

FAULTS = ("open", "fstat", "lseek", "ftruncate", "lockf", "setfd", "unlockf", "close")
OPENERS = ("open", "write_file", "append_file", "read_file", "rawio", "badopen")
MODES = ("WCNB RWCNB WC+B B T NB CB I S E REB REN RWBT rw wa rwb r+w zz rWB RR rr Rb rbt + U rU b t x+x CWr a+r").split() + ["", 3]


def wrong_open(rng):
    """Arguments which cannot be meant."""
    mode = rng.choice(["WB", "RB", "wb", "r+b", "WCB", "W", "xb", "WEB", "a"])
    x = rng.random()
    if x < 0.35:
        return dict(mode=rng.choice(MODES), kw={})
    if x < 0.5:
        return dict(mode=mode, kw={}, as_=rng.choice(["none", "empty", "emptyb", "true", "float", "list", "nul", "minus"]))
    if x < 0.6:
        return dict(mode=mode, kw={"opener": 98} if rng.random() < 0.2 else {}, fd=rng.choice(["fileno", "handle"]))
    if x < 0.63:    # (the raw class)
        return dict(mode="", cls="RSFileIO", kw={"read": True}, as_=rng.choice(["none", "empty", "emptyb", "true", "float", "list",
                                                                               "nul", "minus"]))
    if x < 0.7:
        return dict(mode="", cls="RSFileIO", kw=dict(rng.choice([
            {}, {"read": False}, {"must_create": True}, {"write": True, "must_create": True, "must_not_create": True},
            {"read": True, "must_create": True, "must_not_create": True}, {"read": True, "closefd": False},
            {"append": True, "closefd": False}, {"read": True, "nonsense": 1}])))
    return dict(mode=mode, kw=dict(rng.choice(
        [{"closefd": False}, {"mutex": 1, "thread_safe": False}, {"buffering": True}, {"buffering": "x"}, {"encoding": 3},
         {"errors": 3}, {"opener": -1}, {"nonsense": 1}])))


class Openings:
    def __init__(self):
        self.stats = {}
        self.there = {}      # path -> [(tick, exists)]
        self.made = {}       # (task, op id) -> [inode created]
        self.sized = {}      # (task, op id) -> [(inode, old size, new size, faults so far)]
        self.held = {}       # box key -> (box, [(start, end, exclusive)])

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def start(self):
        k = self.world.kernel
        k.on_create, k.on_size, k.on_write, k.on_unlink = self.on_create, self.on_size, self.on_write, self.on_unlink
        for p, i in k.names.items():
            self.there[p] = [(0, True)]

    def tick(self):
        return self.world.tick

    def opening(self):
        """The opening in progress in the current thread."""
        t = self.world.sched.current
        r = self.world.inflight.get(t.name) if t else None
        if r is None or t.harness or r.op not in OPENERS:
            return None
        return r

    @staticmethod
    def flags(r):
        if r.op == "open":
            return mode_flags(r.a["mode"])
        if r.op == "rawio":
            kw = r.a["kw"]
            return dict(erase=False, create=kw.get("must_create", False), exist=kw.get("must_not_create", False))
        if r.op == "badopen":
            return dict(erase=False, create=False, exist=True)
        if r.op == "read_file":
            return dict(erase=False, create=False, exist=True)
        return dict(erase=r.op == "write_file", create=bool(r.a.get("must_create")),
                    exist=bool(r.a.get("must_not_create")))

    def nfaults(self, r):
        return sum(1 for tn, o, n, f in self.world.sched.fault_log if tn == r.task and o == r.id and f[0] == "err")

    def on_create(self, proc, path, i):
        self.there.setdefault(path, []).append((self.tick(), True))
        r = self.opening()
        if r is None:
            return
        self.stat("files created")
        self.made.setdefault(id(r), []).append(i)
        f = self.flags(r)
        if f["exist"] and not f["create"]:
            self.world.fail("must-exist mode created a file", "%s created %s" % (r.show(), path))
            return
        perm = r.a.get("permissions", r.a.get("kw", {}).get("permissions", 0o777))
        if r.op == "open" and not self.world.windows and i.mode & 0o7777 != perm & ~proc.umask & 0o7777:
            self.world.fail("wrong permissions", "%s created %s with permissions %o instead of %o" % (
                r.show(), path, i.mode & 0o7777, perm & ~proc.umask))

    def on_unlink(self, path):
        self.there.setdefault(path, []).append((self.tick(), False))

    def on_size(self, i, size):
        r = self.opening()
        if r is None or r.op not in ("open", "badopen"):
            return
        f = self.flags(r)
        self.sized.setdefault(id(r), []).append((i, bytes(i.data), size, self.nfaults(r)))
        if i in self.made.get(id(r), ()) and not (f["create"] and i.data):
            return
        if size != 0 or not f["erase"] or f["create"]:
            self.world.fail("opening changed existing content", "%s: size %d became %d" % (r.show(), len(i.data), size))
        elif r.a.get("locking", True) and i.data:
            t = self.world.sched.current
            if not self.covered(t.proc, i, 0, None, True):
                self.world.fail("opening erased a file it had not locked", "%s: kernel locks %r" % (r.show(), i.locks))

    def on_write(self, proc, ofd, i, at, data):
        r = self.opening()
        if r is not None and r.op in ("open", "rawio", "badopen"):
            self.world.fail("opening wrote to the file", "%s: %r at %d" % (r.show(), cut(data), at))

    def covered(self, proc, i, start, end, excl):
        return self.world.kernel.held_cover(i, proc.pid, start, end, excl)

    def existed(self, path, r):
        """Did it exist / was it missing at some moment of the operation?"""
        p = self.world.kernel.norm(path)
        seen, last = set(), False
        for tick, here in self.there.get(p, ()):
            if tick < r.inv:
                last = here
            elif tick <= r.ret:
                seen.add(here)
        seen.add(last)
        return True in seen, False in seen

    # ---- operations
    def invoke(self, t, r):
        if r.op in ("close", "drop", "unlock"):
            b = self.world.box(t, r.a["f"])
            if b is not None:
                self.held.pop(b.key, None)

    def killed(self, p):
        for k, (b, l) in list(self.held.items()):
            if b.proc is p:
                del self.held[k]

    def returned(self, t, r):
        w = self.world
        if r.skipped or w.violation or t.proc.dead:
            return
        if r.op == "lock" and r.exc is None:
            a, b = r.a, r.info["box"]
            o, n = a.get("offset") or 0, a.get("length")
            shared = a.get("shared")
            excl = not shared if shared is not None else b.writable
            self.held.setdefault(b.key, (b, []))[1].append((o, None if not n else o + n, excl))
            return
        if r.op not in OPENERS:
            return
        f = self.flags(r)
        here, missing = self.existed(r.a["path"], r)
        made = self.made.pop(id(r), [])
        sized = self.sized.pop(id(r), [])
        if r.exc is None and r.op == "badopen":
            return w.fail("wrong arguments accepted", r.show())
        if r.exc is None:
            self.stat("openings that succeeded")
            if f["create"]:
                self.stat("exclusive creations")
                if not made:
                    w.fail("exclusive creation of an existing file", "%s returned normally without having created it" % r.show())
            for i in made:
                if r.op == "open" and not w.windows and i.mode & 0o7777 != r.a.get("permissions", 0o777) & ~t.proc.umask & 0o7777:
                    w.fail("wrong permissions", "%s created a file with permissions %o" % (r.show(), i.mode & 0o7777))
            if not f["create"] and not here and not made:
                w.fail("opened a missing file", r.show())
            if r.op == "open":
                b = r.info["box"]
                fl = mode_flags(r.a["mode"])
                if r.a.get("locking", True) and b.inode is not None and b.inode.kind == "f":
                    self.held.setdefault(b.key, (b, []))[1].append((0, None, fl["w"]))
                if f["erase"] and not f["create"] and not any(s == 0 for i, d, s, n in sized):
                    if not made and here and sized == [] and r.info.get("size0"):
                        w.fail("erasing mode did not erase", r.show())
            return
        self.stat("openings that failed")
        name, no, text, mro = r.exc
        nf = self.nfaults(r)
        if r.op == "open":
            for i, old, size, n in sized:
                if old and n == nf and i not in made:
                    w.fail("failed opening erased the file", "%s: it held %r" % (r.show(), cut(old)))
                    return
        for b, ranges in self.held.values():
            if b.proc is not t.proc or b.inode is None or b.closed:
                continue
            for s, e, x in ranges:
                if not self.covered(t.proc, b.inode, s, e, x):
                    w.fail("failed opening released a lock", "%s: the lock %s of stream %s is not held any more: %r" % (
                        r.show(), (s, e), b.path, b.inode.locks))
                    return
            self.stat("locks verified after a failed opening")
        if nf or name == "SimInterrupt":
            return
        if r.op == "badopen":
            if not {"ValueError", "TypeError"} & set(mro):
                w.fail("unexpected failure", "%s, an opening with wrong arguments" % r.show())
            return
        if r.a.get("bad"):
            if {"ValueError", "TypeError", "LookupError"} & set(mro):
                return
        if no == E.EEXIST and "OSError" in mro:
            if not (f["create"] and here):
                w.fail("unexpected failure", "%s: the file %s" % (r.show(), "exists" if here else "was missing"))
        elif no == E.ENOENT and "OSError" in mro:
            if "nodir" not in r.a["path"] and not (f["exist"] and missing):
                w.fail("unexpected failure", "%s: the file exists" % r.show())
        elif no in (E.EISDIR, E.EACCES) and "OSError" in mro and r.a["path"] == "sub":
            pass
        elif no == E.EEXIST and r.a["path"] == "sub":
            pass
        elif "LockingException" in mro:
            if r.a.get("timeout") is None:
                w.fail("unexpected failure", r.show())
        elif "PermissionError" in mro or no == E.ENOTDIR:
            pass
        else:
            w.fail("unexpected failure", r.show())


class C17(Prop):
    id = "C17"
    quick = 28000
    thorough = 350000
    progress = True
    rule = ("Threads and processes open the same paths at once in every mode (and through the whole-file helpers), lock them, "
            "write, close and delete them, with wrong modes, names and arguments (which must be refused without any effect), directories, missing directories, lock timeouts, interrupts, "
            "umasks and permissions, and with kernel calls failing during openings. Watched: who creates a name, who changes "
            "a size, whether each outcome was possible at some instant of the call, and whether failed openings erase "
            "content or release locks that other streams of the process hold.")

    def gen(self, rng):
        g = Gen(rng)
        procs = ["P%d" % i for i in range(rng.choice([1, 1, 2, 2, 3]))]
        paths = ["a"] if rng.random() < 0.7 else ["a", "b"]
        tasks = []

        def args(mode):
            d = dict(thread_safe=rng.random() < 0.5)
            x = rng.random()
            if x < 0.45:
                d["locking"] = False
            elif x < 0.7:
                d["timeout"] = rng.choice([0, 0, 0.2])
            text = "b" not in mode and "B" not in mode
            if text:
                d["encoding"] = "latin-1"
            if rng.random() < 0.3:
                d["permissions"] = rng.choice([0o600, 0o640, 0o777, 0o400, 0o666])
            if rng.random() < 0.12:
                d["bad"] = 1
                d.update(rng.choice([dict(encoding="no-such-codec"), dict(newline="x"), dict(buffering=0),
                                     dict(errors="no-such-handler", encoding="ascii")]) if text
                         else rng.choice([dict(encoding="ascii"), dict(newline="\n"), dict(errors="strict")]))
                d["fixed"] = ["bad", "encoding", "newline", "errors", "buffering"]
            elif not text and rng.random() < 0.3:
                d["buffering"] = rng.choice([0, 2])
            return d

        def path():
            x = rng.random()
            return "sub" if x < 0.03 else "nodir/x" if x < 0.06 else rng.choice(paths)

        def opening(v):
            if rng.random() < 0.12:
                kw = dict(rng.choice([dict(read=True, write=True, must_create=True), dict(write=True, must_create=True),
                                      dict(read=True, must_not_create=True), dict(append=True), dict(write=True)]))
                return g.op("rawio", f=v, path=rng.choice(paths), kw=kw)
            mode = rng.choice(["x", "xb", "x+b", "WCB", "RWCB", "WC", "AC", "ACB", "WECB", "RB", "RWBN", "r", "r+b", "rb", "WBN", "RN",
                               "W", "WB", "RWB", "RWEB", "WE", "WEB", "w", "wb", "w+b", "a", "ab", "AB", "WEBN", "R", "RB-",
                               "WB-", "RB+", "WEB+"])
            return g.op("open", f=v, path=path(), mode=mode, **args(mode))

        for k in range(rng.choice([2, 3, 3, 4])):
            pn = procs[k % len(procs)]
            ops = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                x = rng.random()
                if x < 0.12:
                    ops.append(g.op("unlink", path=rng.choice(paths)))
                    continue
                if x < 0.17:
                    ops.append(g.op("badopen", path=rng.choice(paths), **wrong_open(rng)))
                    continue
                if x < 0.28:
                    kind = rng.choice(["write_file", "write_file", "append_file", "read_file"])
                    d = dict(path=rng.choice(paths))
                    if kind != "read_file":
                        d["data"] = rng.choice(["", "<%d.%d>" % (k, len(ops))])
                    y = rng.random()
                    if kind == "write_file" and y < 0.5:
                        d["must_create"] = True
                    elif kind != "read_file" and y < 0.7:
                        d["must_not_create"] = True
                    if rng.random() < 0.3:
                        d["timeout"] = 0
                    ops.append(g.op(kind, **d))
                    continue
                v = g.var()
                o = opening(v)
                ops.append(o)
                w = o["op"] == "rawio" or mode_flags(o["mode"])["w"]
                for _ in range(rng.choice([0, 1, 2])):
                    y = rng.random()
                    if y < 0.4 and w and o["op"] == "open" and not o.get("bad"):
                        ops.append(g.op("write", f=v, data="<%d.%d>" % (k, len(ops)),
                                        **({"text": 1} if "encoding" in o else {})))
                    elif y < 0.7:
                        ops.append(g.op("yield"))
                    elif y < 0.9 and o.get("locking") is False:
                        d = dict(f=v, timeout=0)
                        if rng.random() < 0.6:
                            d.update(offset=rng.choice([0, 5]), length=rng.choice([1, 10]))
                        if o["op"] == "open" and mode_flags(o["mode"])["r"] and mode_flags(o["mode"])["w"] and rng.random() < 0.4:
                            d["shared"] = True
                        ops.append(g.op("lock", **d))
                    else:
                        # a second opening by the same thread while the first stream is alive
                        v2 = g.var()
                        o2 = opening(v2)
                        if o2["op"] == "open" and o2.get("locking", True):
                            o2["timeout"] = 0
                        ops += [o2, g.op("close", f=v2)]
                ops.append(g.op("close" if rng.random() < 0.8 else "drop", f=v))
            tasks.append({"name": "T%d" % k, "proc": pn, "ops": ops})
        faults = None
        if rng.random() < 0.45:
            p = rng.choice([0.02, 0.06, 0.15])
            faults = {n: [(e, p) for e in {"open": (E.EMFILE, E.EACCES, E.EIO), "lockf": (E.ENOLCK,), "lseek": (E.EIO,)}.get(n, (E.EIO,))]
                      for n in FAULTS if rng.random() < 0.6}
        lines = rng.random() < 0.15
        cfg = {"lines": lines, "flavour": "linux" if rng.random() < 0.8 else "mac",
               "umask": rng.choice([0o022, 0o077, 0, 0o027])}
        files = {p: rng.choice(["", "content of " + p]) for p in paths if rng.random() < 0.5}
        return {"procs": procs, "files": files, "tasks": tasks, "chooser": g.chooser(lines, faults, rng.choice([1, 1, 2, 5])),
                "cfg": cfg}

    def monitors(self, program):
        return [Openings()]


PROP = C17()
