"""C07: locks order the data."""
from ..engine import Prop
from ..gens import Gen

CELL = 10
NCELL = 5
TAIL = CELL * NCELL


class Cells:
    """Every cell of a file is only written under an exclusive lock which covers it."""

    def __init__(self):
        self.truth = {}     # (inode, cell or "tail") -> bytes
        self.stood = set()
        self.held = {}      # lock operation id -> dict
        self.stats = {"reads under a lock": 0, "releases after a write": 0}

    def start(self):
        for name, i in self.world.kernel.names.items():
            if i.kind == "f":
                for k in range(NCELL):
                    self.truth[(i, k)] = bytes(i.data[k * CELL:(k + 1) * CELL])
                self.truth[(i, "tail")] = bytes(i.data[TAIL:])

    def opened(self, t, r):
        """An opening which locks the whole file."""
        b = r.info.get("box")
        if r.a.get("locking", True) and b is not None and b.inode is not None:
            self.held[r.id] = dict(box=b, inode=b.inode, pid=t.proc.pid, s=0, e=None, excl=b.writable, wrote=set())

    def returned(self, t, r):
        a = r.a
        op = r.op
        if op == "open" and r.ok:
            r.info["box"].raw = a.get("buffering") == 0
            self.opened(t, r)
        elif op == "lock" and r.ok:
            b = r.info["box"]
            s, n = a.get("offset") or 0, a.get("length")
            excl = b.writable if a.get("shared") is None else not a["shared"]
            self.held[r.id] = dict(box=b, inode=b.inode, pid=t.proc.pid, s=s, e=s + n if n else None, excl=excl,
                                   wrote=set())
        elif op == "read" and a.get("all"):
            if r.ok and len(r.val) == a["n"]:
                self.stood.add(r.id)
        elif op in ("read", "write") and "cell" in a:
            L = self.held.get(a["under"])
            if L is None or not r.ok:
                return
            k = (L["inode"], a["cell"])
            if op == "read":
                got = r.val.encode("latin-1") if isinstance(r.val, str) else r.val
                want = self.truth[k]
                self.stats["reads under a lock"] += 1
                if a["cell"] != "tail":
                    want = want[:a["n"]]
                    if L["box"].raw:
                        want = want[:len(got)] if got else want
                if "stand" in a and a["stand"] not in self.stood:
                    want = None
                if want is not None and got != want:
                    self.world.fail("stale read", "under lock #%s of %s, cell %s read as %r, but it contains %r" % (
                        a["under"], L["box"].var, a["cell"], got, want))
            else:
                d = a["data"].encode("latin-1")[:r.val]
                if a["cell"] == "tail":
                    self.truth[k] = self.truth[k] + d
                else:
                    at = a.get("at", 0)
                    o = self.truth[k]
                    self.truth[k] = o[:at] + d + o[at + len(d):]
                L["wrote"].add(a["cell"])

    def on_syscall(self, t, name):
        if name not in ("unlockf", "close") or not self.held:
            return
        k = self.world.kernel
        for lid, L in list(self.held.items()):
            if L["pid"] != t.proc.pid or k.held_cover(L["inode"], L["pid"], L["s"], L["e"], L["excl"]):
                continue
            del self.held[lid]
            if L["wrote"]:
                self.stats["releases after a write"] += 1
            data = L["inode"].data
            for c in L["wrote"]:
                have = bytes(data[TAIL:] if c == "tail" else data[c * CELL:(c + 1) * CELL])
                if have != self.truth[(L["inode"], c)]:
                    self.world.fail("released before flushed", "when lock #%s of %s was released, cell %s of the file was "
                                    "%r, but the stream had written %r" % (lid, L["box"].var, c, have,
                                                                          self.truth[(L["inode"], c)]))


class C07(Prop):
    id = "C07"
    quick = 10000
    thorough = 250000
    rule = ("Cells of one file are read and rewritten under locks by 2-4 long-lived streams of every type and buffer "
            "size, in threads and processes, with read-ahead and queued writes before and after; each lock ends by "
            "unlock, with-block, exception, close or collection. At every read under a lock the data must be the "
            "latest, and at the very kernel call that ends a lock the file must contain what was written under it.")

    def gen(self, rng):
        g = Gen(rng)
        procs = ["P%d" % i for i in range(rng.choice([1, 1, 2, 2, 3]))]
        tasks = []
        self.count = 0
        for i in range(max(len(procs), rng.choice([2, 2, 3, 4]))):
            pn = procs[i] if i < len(procs) else rng.choice(procs)
            tasks.append({"name": "T%d" % i, "proc": pn, "ops": self.task(g, rng, i)})
        lines = rng.random() < 0.3
        init = "".join(chr(97 + k) * CELL for k in range(NCELL))
        return {"procs": procs, "files": {"a": init}, "tasks": tasks,
                "cfg": {"lines": lines, "flavour": "linux", "kernel": {"blksize": rng.choice([4096, 4096, 16, 64])}},
                "chooser": g.chooser(lines, {"write": [("short", 0.1)], "read": [("short", 0.1)]} if rng.random() < 0.3
                                     else None, 4)}

    def open(self, g, rng, v, locking=False):
        text = rng.random() < 0.4
        mode = rng.choice(["RW", "r+", "RWN"] if text else ["RWB", "r+b", "RWBN", "RWBS"])
        if rng.random() < 0.15:
            mode = rng.choice(["R", "r"] if text else ["RB", "rb"])
        elif rng.random() < 0.2:
            mode = rng.choice(["RWA", "A", "a+"] if text else ["RWAB", "AB", "a+b"])
        d = dict(f=v, path="a", mode=mode, locking=locking, thread_safe=rng.random() < 0.5)
        if text:
            d["encoding"] = rng.choice(["ascii", "latin-1", "utf-8"])
            d["newline"] = ""
        b = rng.choice([None, None, 7, 16, 64, 4096])
        if not text and rng.random() < 0.15:
            b = 0
        if b is not None:
            d["buffering"] = b
        return g.op("open", **d), mode, text

    def token(self, rng, i, n):
        self.count += 1
        return ("%d%04d" % (i, self.count) + rng.choice("XYZ") * CELL)[:n]

    def body(self, g, rng, i, v, mode, text, cells, lid, fresh_at, excl):
        """Accesses under lock lid; fresh_at: cell at which the stream already stands."""
        ops = []
        tx = {"text": 1} if text else {}
        app = "a" in mode or "A" in mode
        readable = "r" in mode or "R" in mode or "+" in mode
        for _ in range(rng.choice([1, 1, 2, 3])):
            c = rng.choice(cells)
            if fresh_at is not None:
                c = fresh_at
            if c == "tail":
                if app and excl:
                    ops.append(g.op("write", f=v, data=self.token(rng, i, rng.choice([3, 8, 20])), cell="tail", under=lid, **tx))
                elif readable:
                    ops.append(g.op("read", f=v, seek=TAIL, n=-1, cell="tail", under=lid, **tx))
                fresh_at = None
                continue
            if app and not readable:
                continue
            if readable and (fresh_at is not None or rng.random() < 0.7):
                at = dict(seek=c * CELL) if fresh_at is None else dict(stand=self.stand)
                ops.append(g.op("read", f=v, n=rng.choice([CELL, CELL, 4]), cell=c, under=lid, **tx, **at))
            fresh_at = None
            if excl and not app and rng.random() < 0.8:
                at = rng.choice([0, 0, 0, 5])
                n = CELL - at if rng.random() < 0.6 else 3
                ops.append(g.op("write", f=v, data=self.token(rng, i, n), cell=c, at=at, under=lid,
                                seek=c * CELL + at, **tx))
                if rng.random() < 0.15:
                    ops.append(g.op("read", f=v, seek=c * CELL, n=CELL, cell=c, under=lid, **tx) if readable else
                               g.op("call", f=v, m="tell"))
            if rng.random() < 0.15:
                ops.append(g.op("call", f=v, m=rng.choice(["flush", "size", "tell"])))
            if rng.random() < 0.15:
                ops.append(g.op("sleep", s=rng.choice([0.001, 0.2])))
        return ops

    def task(self, g, rng, i):
        ops = []
        v = None
        for _ in range(rng.choice([1, 2, 3, 4])):
            if v is not None and rng.random() < 0.2:
                ops.append(g.op(rng.choice(["close", "close", "drop"]), f=v))
                v = None
            if v is None:
                v = g.var()
                lk = rng.random() < 0.2
                o, mode, text = self.open(g, rng, v, lk)
                app = "a" in mode or "A" in mode
                rd, wr = "r" in mode or "R" in mode or "+" in mode, mode not in ("R", "r", "RB", "rb")
                ops.append(o)
                if lk:
                    ops += self.body(g, rng, i, v, mode, text, ["tail", "tail", 1] if app else [0, 1, 2, 3, 4, "tail"],
                                     o["id"], None, wr)
                    ops.append(g.op(rng.choice(["close", "close", "drop"]), f=v))
                    v = None
                    continue
            tx = {"text": 1} if text else {}
            fresh = None
            if app and wr and (rng.random() < 0.7 or not rd):
                a = dict(offset=TAIL) if rng.random() < 0.7 else {}
                cells = ["tail"]
            else:
                c = rng.randrange(NCELL)
                k = rng.choice([1, 1, 2])
                cells = [x for x in range(c, min(NCELL, c + k))]
                a = dict(offset=c * CELL, length=len(cells) * CELL)
                if rd and rng.random() < 0.5:
                    # stand at the cell before locking it, with read-ahead over it
                    k = min(c * CELL, rng.choice([0, 2, 5]))
                    ops.append(g.op("read", f=v, seek=c * CELL - k, n=k, all=1, **tx))
                    self.stand = ops[-1]["id"]
                    fresh = c
            excl = wr and (not rd or rng.random() < 0.8)
            if rd and wr:
                a["shared"] = not excl
            how = rng.choice(["unlock", "unlock", "with", "with", "raise", "close", "drop"])
            if how in ("with", "raise"):
                o = g.op("with_lock", f=v, **a)
                o["body"] = self.body(g, rng, i, v, mode, text, cells, o["id"], fresh, excl)
                if how == "raise":
                    o["raise"] = True
                ops.append(o)
            else:
                o = g.op("lock", f=v, **a)
                ops.append(o)
                ops += self.body(g, rng, i, v, mode, text, cells, o["id"], fresh, excl)
                if how == "unlock":
                    ops.append(g.op("unlock", f=v, offset=a.get("offset"), length=a.get("length")))
                else:
                    ops.append(g.op(how, f=v))
                    v = None
            if v is not None and rd and rng.random() < 0.3:
                ops.append(g.op("read", f=v, n=rng.choice([1, 15]), **tx))   # noise: read-ahead
        return ops

    def valid(self, program):
        from ..engine import walk_ops
        ids = {ops[i]["id"] for ops, i in walk_ops(program)}
        return all(ops[i].get("stand", None) in ids | {None} for ops, i in walk_ops(program))

    def monitors(self, program):
        return [Cells()]


PROP = C07()
