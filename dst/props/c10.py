"""C10: streams and locks across fork()."""
import errno as E

from ..bytemodel import Props
from ..engine import Prop, walk_ops
from ..gens import Gen, LockGen, no_hold_and_wait
from ..lin import Op, TooHard, linearize
from ..lockmodel import LockModel
from ..world import mode_flags
from .c09 import many, one


class C10(Prop):
    id = "C10"
    quick = 9000
    thorough = 200000
    rule = ("Two kinds of programs. Locks: LockGen programs in which threads fork, at any moment, children which use "
            "their inherited streams and new ones; the lock model (exclusion, survival, exact release, reentrancy, no "
            "spurious refusal, prompt grants) applies to every process and every program must finish. Sharing: one "
            "inheritable thread-safe stream is used, call by call or under its mutex, by threads of the parent and of "
            "several children; the history must be linearizable against one byte array with one cursor.")

    def gen(self, rng):
        return self.gen_locks(rng) if rng.random() < 0.6 else self.gen_shared(rng)

    def must_end(self, program):
        return "kind" in program or no_hold_and_wait(program) and not self.mutexed(program)

    @staticmethod
    def mutexed(program):
        """A stream with a mutex has several users: a call on it waits for the others, also those who wait for locks; so such
        programs need not end (the lock may have to be released through that very stream), nor be prompt."""
        return any(ops[k]["op"] in ("open", "wrap") and ops[k].get("thread_safe", True) and
                   ("I" in ops[k]["mode"] or ops[k].get("shared_var")) for ops, k in walk_ops(program))

    # ---- locks
    def gen_locks(self, rng):
        faults = {"lockf": [(E.ENOLCK, 0.03), (E.EDEADLK, 0.03), ("delay", 0.02)]} if rng.random() < 0.3 else None
        g = LockGen(rng, nprocs=rng.choice([1, 1, 1, 2]), ntasks=rng.choice([1, 2, 2, 3]), p_misc=0.25, p_kill=0.1,
                    p_exit=0.1, min_ops=3, max_ops=7, faults=faults, p_lines=0.6, whence=0, p_share=0.2,
                    paths=["a"] if rng.random() < 0.75 else ["a", "b"], far=0.03)
        p = g.program()
        nf = 0
        self.inherited = set()
        todo = list(p["tasks"])
        for td in todo:
            if td["name"] == "K" or not td["ops"]:
                continue
            for _ in range(rng.choice([0, 1, 1, 2]) if nf else rng.choice([1, 1, 2])):
                if nf >= 3:
                    break
                k = rng.randint(0, len(td["ops"]))
                td["ops"].insert(k, self.fork_op(g, rng, td, k, nf, 0))
                nf += 1
        # read-ahead of buffered streams, once the offset is shared with another process, makes no sense (in plain io too)
        raw = {ops[k]["f"] for ops, k in walk_ops(p) if ops[k]["op"] == "open" and ops[k].get("buffering") == 0}
        for ops, k in list(walk_ops(p))[::-1]:
            a = ops[k]
            if a["op"] == "read" and a["f"] in self.inherited and a["f"] not in raw:
                del ops[k]
        return p

    def fork_op(self, g, rng, td, k, nf, depth):
        streams = {}
        for a in td["ops"][:k]:
            if a["op"] in ("open", "wrap") and a["mode"] not in ("WCB", "x") and "f" in a and a["f"][0] != "z":
                streams[a["f"]] = (a["mode"], a.get("path", "a"))
            elif a["op"] in ("close", "drop"):
                streams.pop(a["f"], None)
        name = "%s.%d" % (td["name"], nf)
        streams = {v: s for v, s in streams.items() if v[0] != "w"}
        self.inherited.update(streams)
        ops = g.task_ops(td["proc"], name, {v: s for v, s in streams.items()})
        # inherited streams get exercised: closed, unlocked, locked
        for v, (m, path) in list(streams.items()):
            if rng.random() < 0.4:
                # what the parent holds (perhaps) gets unlocked by the child: refused
                held = [a for a in td["ops"][:k] if a["op"] == "lock" and a["f"] == v]
                a = rng.choice(held) if held else {}
                ops.insert(0, g.op("unlock", f=v, **{x: a[x] for x in ("length", "offset") if x in a}))
        return g.op("fork", child="C%d" % nf, task={"name": name, "proc": "C%d" % nf, "ops": ops})

    # ---- one shared stream
    def gen_shared(self, rng):
        g = Gen(rng)
        self.n = 0
        kind = rng.choice(["raw", "raw", "buf", "append", "append", "textappend"])
        if kind == "raw":
            mode = rng.choice(["RWBI", "RWBIE", "WBI", "RBI", "RWABI", "ABI", "RWBIN"])
        elif kind == "buf":
            mode = rng.choice(["WBI", "RBI"])  # _pyio.BufferedRandom.seek() moves relatively over its own read-ahead
        else:
            mode = rng.choice(["AI", "RWAI"]) + ("B" if kind == "append" else "")
        o = dict(f="s0", path="a", mode=mode, thread_safe=True, locking=rng.random() < 0.2,
                 fixed=["thread_safe", "buffering"])
        if kind == "raw":
            o["buffering"] = 0
        elif rng.random() < 0.7:
            o["buffering"] = rng.choice([4, 8, 64])
        if kind == "textappend":
            o["encoding"], o["newline"] = "latin-1", ""
        f = mode_flags(mode)
        t0 = {"name": "T0", "proc": "P0", "ops": [g.op("open", **o)]}
        tasks = [t0]
        nf = rng.choice([1, 1, 2])
        i = 1
        for k in range(nf):
            if kind == "raw":
                t0["ops"] += self.calls(g, rng, kind, f, 0, rng.choice([0, 1]))
            t0["ops"].append(g.op("fork", child="C%d" % k, busy_ok=1, task={
                "name": "F%d" % k, "proc": "C%d" % k, "ops": self.calls(g, rng, kind, f, i, rng.choice([2, 3]))}))
            i += 1
        t0["ops"] += self.calls(g, rng, kind, f, 0, rng.choice([1, 2, 3]))
        if kind == "raw" and rng.random() < 0.5:
            tasks.append({"name": "T1", "proc": "P0", "ops": [g.op("await", f="s0")] +
                          self.calls(g, rng, kind, f, 9, rng.choice([1, 2, 3]))})
        faults = {"write": [("short", 0.2), ("delay", 0.03)], "read": [("short", 0.2), ("delay", 0.03)]} \
            if rng.random() < 0.4 else None
        init = "".join(rng.choice("abcdefgh\n") for _ in range(rng.choice([0, 6, 20])))
        ch = g.chooser(True, faults, 5)
        ch["line_gap"] = rng.choice([3, 8, 20, 60])
        return {"procs": ["P0"], "files": {"a": init}, "tasks": tasks, "chooser": ch, "kind": kind,
                "cfg": {"lines": True, "noautoclose": 1, "kernel": {"blksize": rng.choice([4096, 16])}}}

    def token(self, rng, i):
        self.n += 1
        return ("%d%s%d" % (i, chr(65 + self.n % 26), self.n)) + "." * rng.choice([0, 1, 4, 9])

    def calls(self, g, rng, kind, f, i, n):
        out = []
        for _ in range(n):
            if kind == "raw" and rng.random() < 0.65:
                out.append(self.call(g, rng, f, i))
                continue
            tx = {"text": 1} if kind == "textappend" else {}
            if kind == "raw":
                body = [self.call(g, rng, f, i) for _ in range(2)]
            elif kind == "buf":
                body = [g.op("seek", f="s0", n=rng.choice([0, 2, 9, 20]))]
                for _ in range(rng.choice([1, 2])):
                    if f["w"] and (not f["r"] or rng.random() < 0.6):
                        body.append(g.op("write", f="s0", data=self.token(rng, i)))
                    else:
                        body.append(g.op("read", f="s0", n=rng.choice([-1, 3, 8])))
                body.append(g.op("call", f="s0", m="flush"))
            else:
                body = [g.op("write", f="s0", data=self.token(rng, i), **tx) for _ in range(rng.choice([1, 2, 3]))]
                body.append(g.op("call", f="s0", m="flush"))
            h = g.op("hold_mutex", f="s0", body=body)
            for x in body:
                x["in"] = h["id"]
            out.append(h)
        return out

    def call(self, g, rng, f, i):
        x = rng.random()
        if f["r"] and (x < 0.4 or not f["w"]) and x < 0.7:
            return g.op("read", f="s0", m=rng.choice(["read", "read", "readline", "next", "readinto"]), n=rng.choice([1, 3, 8]))
        if f["w"] and x < 0.75:
            return g.op("write", f="s0", data=self.token(rng, i))
        if x < 0.85:
            return g.op("seek", f="s0", n=rng.choice([0, 0, 2, 9]), whence=rng.choice([0, 0, 2]))
        m = rng.choice(["tell", "tell", "size", "truncate"])
        if m == "truncate" and f["w"]:
            return g.op("call", f="s0", m=m, args=[rng.choice([0, 4, 12, 30])])
        return g.op("call", f="s0", m="tell" if m == "truncate" else m)

    def valid(self, program):
        if program.get("kind") in ("buf", "append", "textappend"):
            # groups must begin by a seek and end by a flush
            for ops, k in walk_ops(program):
                a = ops[k]
                if a["op"] == "hold_mutex" and a["body"] and (a["body"][-1].get("m") != "flush" or (
                        program["kind"] == "buf" and a["body"][0]["op"] != "seek")):
                    return False
                if a["op"] == "open" and a.get("buffering") == 0:
                    return False
        return "kind" not in program or any(o["op"] == "open" for o in program["tasks"][0]["ops"])

    def monitors(self, program):
        if "kind" in program:
            return []
        return [LockModel({"excl", "survive", "exact", "reentrant", "free"} | (set() if self.mutexed(program) else {"prompt"}))]

    def final(self, w):
        kind = w.program.get("kind")
        if kind is None:
            return
        o = next((r for r in w.history if r.op == "open" and r.ok), None)
        if o is None:
            return
        a = o.a
        f = mode_flags(a["mode"])
        p = Props(f["r"], f["w"], f["a"], a.get("buffering") == 0, kind == "textappend")
        init = w.program["files"]["a"].encode("latin-1")
        if f["erase"] and not f["create"]:
            init = b""
        ops = []
        groups = {}
        for r in w.history:
            if r.skipped or r.op in ("open", "await", "fork"):
                continue
            if r.op == "hold_mutex":
                groups[r.id] = (r, [])
            elif "in" in r.a:
                groups[r.a["in"]][1].append(r)
            else:
                ops.append(Op(r.inv, r.ret, [one(p, r)], r.op, r))
        for h, rs in groups.values():
            if h.exc is not None:
                w.fail("mutex", "holding the mutex failed: %s" % (h.exc,))
            ops.append(Op(h.inv, h.ret, [many(p, rs)], "group", h))
        last = bytes(w.kernel.names["/sim/a"].data)
        self.hard = 0
        try:
            order = linearize(ops, (init, len(init) if f["a"] else 0, False), lambda s: s[0] == last)
        except TooHard:
            self.hard = 1
            return
        if order is None:
            w.fail("not atomic", "no order of the calls of parent and children consistent with real time explains their "
                   "results and the final content %r (initial %r, %r)" % (last, init, p))

    def stats(self, w):
        return {"histories too hard to decide": getattr(self, "hard", 0), "programs sharing a stream": int(
            "kind" in w.program)}


PROP = C10()
