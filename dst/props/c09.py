"""C09: the calls of several threads on one thread-safe stream are atomic."""
from ..bytemodel import Props, step
from ..engine import Prop
from ..gens import Gen
from ..lockmodel import ITERATING
from ..lin import Op, TooHard, linearize
from ..world import mode_flags


class C09(Prop):
    id = "C09"
    quick = 12000
    progress = True
    thorough = 200000
    rule = ("2-4 threads make 2-6 calls each on one thread-safe stream (raw, buffered or text; every mode; tiny to large "
            "buffers; short transfers), some grouped under the stream's mutex; line-level preemption inside the "
            "library. The history must be linearizable against a byte array with a cursor, up to the final file.")

    def gen(self, rng):
        g = Gen(rng)
        self.n = 0
        kind = rng.choice(["raw", "buf", "buf", "buf", "textw", "textr"])
        if kind == "textw":
            mode = rng.choice(["W", "WE", "A", "w", "a"])
        elif kind == "textr":
            mode = rng.choice(["R", "r", "RN"])
        else:
            mode = rng.choice(["RWB", "r+b", "RWB", "RB", "WB", "AB", "RWAB", "w+b", "ab", "a+b", "RWBS", "RWIB", "rb"])
        o = dict(f="s0", path="a", mode=mode, thread_safe=True, locking=rng.random() < 0.3,
                 fixed=["thread_safe", "buffering"])
        if rng.random() < 0.1:
            del o["thread_safe"]   # it is the default
        if rng.random() < 0.15:
            o["own_mutex"] = 1     # the application provides the mutex
        if kind == "raw":
            o["buffering"] = 0
        elif rng.random() < 0.8:
            o["buffering"] = rng.choice([4, 5, 8, 16, 64])
        if kind in ("textw", "textr"):
            o["encoding"], o["newline"] = "latin-1", ""
        f = mode_flags(mode)
        nt = rng.choice([2, 2, 3, 3, 4])
        tasks = []
        for i in range(nt):
            ops = [g.op("open", **o)] if i == 0 else [g.op("await", f="s0")]
            for _ in range(rng.choice([2, 3, 3, 4, 5]) if nt < 4 else rng.choice([2, 3])):
                if rng.random() < 0.2 and kind in ("raw", "buf"):
                    body = [self.call(g, rng, i, kind, f, True) for _ in range(rng.choice([2, 2, 3]))]
                    h = g.op("hold_mutex", f="s0", body=body)
                    for x in body:
                        x["in"] = h["id"]
                    ops.append(h)
                elif i == 0 and not o["locking"] and rng.random() < 0.15:
                    w = g.op("with_lock", f="s0", timeout=0, offset=rng.choice([0, 3, 50]), length=rng.choice([None, 2]),
                             body=[self.call(g, rng, i, kind, f, False) for _ in range(rng.choice([0, 1, 2]))])
                    ops.append(w)
                else:
                    ops.append(self.call(g, rng, i, kind, f, False))
            tasks.append({"name": "T%d" % i, "proc": "P0", "ops": ops})
        if rng.random() < 0.15:
            t = rng.choice(tasks)
            t["ops"].insert(rng.randint(1, len(t["ops"])), g.op("close", f="s0", keep=1))
        faults = None
        if rng.random() < 0.4:
            faults = {"write": [("short", 0.2), ("delay", 0.03)], "read": [("short", 0.2), ("delay", 0.03)],
                      "lseek": [("delay", 0.03)]}
        init = "".join(rng.choice("abcdefgh\n") for _ in range(rng.choice([0, 6, 20, 40])))
        ch = g.chooser(True, faults, 6)
        ch["line_gap"] = rng.choice([3, 8, 20, 60])
        return {"procs": ["P0"], "files": {"a": init}, "tasks": tasks, "cfg": {"lines": True, "kernel": {
            "blksize": rng.choice([4096, 16])}}, "chooser": ch, "kind": kind}

    def token(self, rng, i):
        self.n += 1
        t = ("%d%s%d" % (i, chr(65 + self.n % 26), self.n)) + "." * rng.choice([0, 1, 4, 9])
        return t + ("\n" if rng.random() < 0.4 else "")

    def call(self, g, rng, i, kind, f, grouped):
        tx = {"text": 1} if kind in ("textw", "textr") else {}
        x = rng.random()
        if kind == "textr":
            return g.op("read", f="s0", m=rng.choice(["read", "read", "readline", "next", "readline"]),
                        n=rng.choice([-1, 1, 3, 8]), **tx)
        if kind == "textw":
            if x < 0.75:
                return g.op("write", f="s0", data=self.token(rng, i), **tx)
            return g.op("call", f="s0", m=rng.choice(["flush", "size"]))
        if x < 0.4 and f["r"] or not f["w"] and x < 0.7:
            m = rng.choice(["read", "read", "readline", "next"] + (["readinto"] if kind == "raw" else ["read1", "peek"]))
            n = rng.choice([1, 3, 8, 30] if m in ("readinto", "read1", "peek") else [-1, 1, 3, 8])
            if m == "readline" and kind == "buf":
                n = -1   # _pyio's own readline(limit) of buffered streams exceeds the limit
            return g.op("read", f="s0", m=m, n=n)
        if x < 0.7 and f["w"]:
            d = dict(data=self.token(rng, i))
            if rng.random() < 0.15:
                d["m"] = "writelines"
            return g.op("write", f="s0", **d)
        if x < 0.82:
            wh = rng.choice([0, 0, 2]) if kind == "raw" else rng.choice([0, 0, 0, 2])
            return g.op("seek", f="s0", n=rng.choice([0, 0, 2, 9]), whence=wh)
        m = rng.choice(["tell", "tell", "size", "size", "size", "flush", "truncate"])
        if m == "truncate":
            if not f["w"]:
                m = "tell"
            else:
                return g.op("call", f="s0", m=m, args=[rng.choice([0, 4, 12, 30])])
        return g.op("call", f="s0", m=m)

    def valid(self, program):
        return any(o["op"] == "open" for o in program["tasks"][0]["ops"])

    def final(self, w):
        o = next((r for r in w.history if r.op == "open" and r.ok), None)
        if o is None:
            for r in w.history:
                if r.op == "open" and not r.skipped and r.exc is not None:
                    w.fail("opening refused", "%s, although nothing is wrong with it" % r.show())
            return
        a = o.a
        f = mode_flags(a["mode"])
        kind = w.program["kind"]
        p = Props(f["r"], f["w"], f["a"], a.get("buffering") == 0, kind[:4] == "text")
        init = w.program["files"]["a"].encode("latin-1")
        ops = []
        groups = {}
        for r in w.history:
            if r.skipped or r.op in ("open", "await"):
                continue
            if r.op in ("lock", "exit"):
                if r.exc is not None and r.exc[0] != "ValueError" and (r.op, r.exc[2]) != ("lock", ITERATING):
                    w.fail("locking failed", "%s, although nobody else has that file" % r.show())
                continue
            if r.op == "hold_mutex":
                groups[r.id] = (r, [])
            elif "in" in r.a:
                groups[r.a["in"]][1].append(r)
            else:
                ops.append(Op(r.inv, r.ret, [one(p, r)], r.op, r))
        for h, rs in groups.values():
            if h.exc is not None:
                w.fail("mutex", "holding the mutex failed: %s" % (h.exc,))
            ops.append(Op(h.inv, h.ret, [many(p, rs)], "group", h))
        last = bytes(w.kernel.names["/sim/a"].data)
        if f["erase"] and not f["create"]:
            init = b""
        self.hard = 0
        try:
            order = linearize(ops, (init, len(init) if f["a"] else 0, False), lambda s: s[0] == last and s[2])
        except TooHard:
            self.hard = 1
            return
        if order is None:
            w.fail("not atomic", "no order of the calls consistent with real time explains their results and the final "
                   "content %r (initial %r, %r)" % (last, init, p))

    def stats(self, w):
        return {"histories too hard to decide": getattr(self, "hard", 0)}


def one(p, r):
    return lambda s: step(s, p, r.a, r.op, r.exc, r.val)


def many(p, rs):
    def st(s):
        cur = [s]
        for r in rs:
            cur = [y for x in cur for y in step(x, p, r.a, r.op, r.exc, r.val)]
        return cur
    return st


PROP = C09()
