"""C08: whole-file helpers and default rsopen() sessions are atomic towards each other."""
import errno as E

from ..engine import Prop
from ..gens import Gen
from ..lin import Op, TooHard, linearize
from ..world import mode_flags

LOCKFAIL = ("LockingException",)
IOFAULTS = ("write", "ftruncate", "read", "lseek", "fstat", "open", "close", "unlockf", "setfd", "lockf")


def b(s):
    return s.encode("latin-1")


def creates(kind, a):
    """May the operation create a missing file?"""
    if kind == "write_file":
        return not a.get("must_not_create")
    if kind == "append_file":
        return not a.get("must_not_create")
    if kind == "session":
        f = mode_flags(a["mode"])
        return not f["exist"]
    return False


def must_create(kind, a):
    if kind == "write_file":
        return bool(a.get("must_create"))
    return kind == "session" and mode_flags(a["mode"])["create"]


def creation(kind, a, opt=False):
    """First stage: the file gets created, empty, if it is missing."""
    def st(s):
        if must_create(kind, a):
            out = [b""] if s is None else []
        elif s is None:
            out = [b""] if creates(kind, a) else []
        else:
            out = [s]
        return out + [s] if opt and s not in out else out
    return st


class Session:
    """What a locked session does to the content, as one step."""

    def __init__(self, a, recs):
        self.f = mode_flags(a["mode"])
        self.a, self.recs = a, recs

    def __call__(self, s):
        if s is None:
            return []
        f = self.f
        if f["erase"] and not f["create"]:
            s = b""
        pos = 0
        for r in self.recs:
            o = r.a
            if r.op == "write":
                d = b_(o["data"])
                n = r.val
                if self.a.get("buffering") == 0 and n is not None:
                    d = d[:n]
                if f["a"]:
                    s = s + d
                    pos = None
                else:
                    if pos > len(s):
                        s = s + bytes(pos - len(s))
                    s = s[:pos] + d + s[pos + len(d):]
                    pos += len(d)
            elif r.op == "read":
                v = r.val.encode("latin-1") if isinstance(r.val, str) else r.val
                want = s[pos:]
                n = o.get("n", -1)
                if n >= 0:
                    want = want[:n]
                if self.a.get("buffering") == 0 and n > 0 and want:
                    if not v or not want.startswith(v):
                        return []
                    want = v
                if v != want:
                    return []
                pos += len(v)
            elif r.op == "seek":
                pos = o["n"] if o.get("whence", 0) == 0 else len(s) + o["n"]
            elif r.op == "call" and o["m"] == "size":
                if r.val != len(s):
                    return []
            elif r.op == "call" and o["m"] == "truncate":
                n = o["args"][0]
                s = s[:n] + bytes(max(0, n - len(s)))
        return [s]


b_ = b


class C08(Prop):
    id = "C08"
    quick = 8000
    thorough = 200000
    rule = ("2-4 threads in 1-3 processes call write_to_file, append_to_file, read_from_file and run default rsopen() "
            "sessions (every mode and buffer size) on one file, which may be missing at first, with timeouts, short "
            "transfers, kernel errors and process deaths; the recorded history must be linearizable against a plain "
            "byte string, including the final content.")

    def gen(self, rng):
        g = Gen(rng)
        style = rng.choice(["sessions", "sessions", "helpers", "faults"])
        procs = ["P%d" % i for i in range(rng.choice([1, 1, 2, 2, 3]))]
        self.count = 0
        tasks = []
        big = rng.random() < 0.3
        for i in range(max(len(procs), rng.choice([2, 3, 3, 4]))):
            pn = procs[i] if i < len(procs) else rng.choice(procs)
            ops = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                if style == "sessions" and rng.random() < 0.6:
                    ops += self.session(g, rng, i)
                else:
                    ops.append(self.helper(g, rng, i, big))
                if rng.random() < 0.15:
                    ops.append(g.op("sleep", s=rng.choice([0.0, 0.01, 0.15])))
            tasks.append({"name": "T%d" % i, "proc": pn, "ops": ops})
        faults = None
        cfg = {"kernel": {"blksize": rng.choice([4096, 16, 7])}}
        if style == "faults":
            faults = {"write": [("short", 0.15), (E.ENOSPC, 0.1), (E.EIO, 0.05)], "read": [("short", 0.1), (E.EIO, 0.04)],
                      "ftruncate": [(E.EIO, 0.08)], "lockf": [(E.ENOLCK, 0.05), (E.EDEADLK, 0.05), ("delay", 0.03)],
                      "open": [(E.EMFILE, 0.03)], "close": [(E.EIO, 0.05)], "unlockf": [(E.ENOLCK, 0.03)],
                      "lseek": [(E.EIO, 0.02)]}
            if len(procs) > 1 and rng.random() < 0.4:
                tasks.append({"name": "K", "proc": procs[0], "ops": [
                    g.op("sleep", s=rng.choice([0.00001, 0.00003, 0.0001, 0.1])), g.op("kill", proc=procs[1])]})
        elif rng.random() < 0.5:
            faults = {"write": [("short", 0.15)], "read": [("short", 0.15)], "lockf": [("delay", 0.03)]}
        if rng.random() < 0.1:
            cfg["options"] = {"enforced_locking_timeout_value": rng.choice([0.0001, 0.05])}
        lines = rng.random() < 0.25
        cfg["lines"] = lines
        files = {} if rng.random() < 0.35 else {"a": rng.choice(["", "old", "0123456789" * 3])}
        return {"procs": procs, "files": files, "tasks": tasks, "cfg": cfg, "style": style,
                "chooser": g.chooser(lines, faults, 3)}

    def token(self, rng, i, big):
        self.count += 1
        n = rng.choice([1, 3, 8, 8, 20] if not big else [20, 45])
        return ("%s%d" % (chr(97 + i), self.count) + chr(65 + self.count % 26) * n)[:max(n, 3)]

    def lockargs(self, rng):
        return {"timeout": rng.choice([0, 0, 0.05, 0.3])} if rng.random() < 0.3 else {}

    def helper(self, g, rng, i, big):
        kw = self.lockargs(rng)
        x = rng.random()
        if rng.random() < 0.5:
            kw["buffering"] = rng.choice([0, 0, 7, 16, 4096])
        if rng.random() < 0.3:
            kw["text"] = True
            kw["encoding"] = "latin-1"
            kw["newline"] = ""
            if kw.get("buffering") == 0:
                kw["buffering"] = 8
        if x < 0.35:
            return g.op("read_file", path="a", **kw)
        if rng.random() < 0.2:
            kw["sync"] = True
        if rng.random() < 0.15:
            kw["must_not_create"] = True
        if x < 0.7:
            if rng.random() < 0.15 and "must_not_create" not in kw:
                kw["must_create"] = True
            return g.op("write_file", path="a", data=self.token(rng, i, big), **kw)
        return g.op("append_file", path="a", data=self.token(rng, i, big), **kw)

    def session(self, g, rng, i):
        v = g.var()
        text = rng.random() < 0.25
        mode = rng.choice(["r", "r+", "w", "w+", "a", "a+", "x", "R", "RW", "RWN", "RWE", "WE", "WEN", "WC", "A", "RWA",
                           "RN", "WS", "AE"])
        if mode.upper() == mode:
            mode += "" if text else "B"
        else:
            mode += "" if text else "b"
        kw = dict(f=v, path="a", mode=mode, thread_safe=rng.random() < 0.5, **self.lockargs(rng))
        bf = rng.choice([None, None, 5, 16] if text else [None, 0, 0, 5, 16])
        if bf is not None:
            kw["buffering"] = bf
        if text:
            kw["encoding"], kw["newline"] = "latin-1", ""
        f = mode_flags(mode)
        o = g.op("open", **kw)
        ops = [o]
        tx = {"text": 1} if text else {}
        for _ in range(rng.choice([0, 1, 2, 3])):
            x = rng.random()
            if f["w"] and x < 0.5:
                if not f["a"] and (text and f["r"] or rng.random() < 0.5):
                    ops.append(g.op("seek", f=v, n=0, whence=rng.choice([0, 2])))
                ops.append(g.op("write", f=v, data=self.token(rng, i, False), **tx))
            elif f["r"]:
                if f["w"] or rng.random() < 0.3:
                    ops.append(g.op("seek", f=v, n=0))
                ops.append(g.op("read", f=v, n=rng.choice([-1, -1, 5]), **tx))
            if x > 0.8:
                ops.append(g.op("sleep", s=rng.choice([0.001, 0.12])))
            elif x > 0.7 and not text:
                ops.append(g.op("call", f=v, m="size"))
            elif x > 0.65 and f["w"] and not text and bf == 0:
                ops.append(g.op("call", f=v, m="truncate", args=[rng.choice([0, 2, 40])]))
        ops.append(g.op(rng.choice(["close", "close", "close", "drop"]), f=v))
        for x in ops:
            x["sess"] = o["id"]
        return ops

    def valid(self, program):
        # a session which loses its position setting operations has no defined meaning in the model
        for t in program["tasks"]:
            seen = set()
            for a in t["ops"]:
                if "sess" in a:
                    if a["op"] == "open":
                        seen.add(a["sess"])
                    elif a["sess"] not in seen:
                        return False
        if program.get("style") == "sessions":
            for t in program["tasks"]:
                pos = {}
                for a in t["ops"]:
                    if "sess" not in a or "f" not in a:
                        continue
                    f = a["f"]
                    if a["op"] == "open":
                        fl = mode_flags(a["mode"])
                        pos[f] = [fl, True, "b" in a["mode"].lower()]
                    elif a["op"] == "seek":
                        pos[f][1] = True
                    elif a["op"] in ("read", "write"):
                        fl, ok, binary = pos[f]
                        if fl["r"] and fl["w"] and not ok and not (fl["a"] and a["op"] == "write"):
                            if not binary or a["op"] == "read":
                                return False
                        pos[f][1] = False
        return True

    def final(self, w):
        ops = []
        faulted = {(x[0], x[1]) for x in w.sched.fault_log if x[3][0] == "err" and x[2] != "lockf"}
        sessions = {}
        for r in w.history:
            a = r.a
            if r.skipped:
                continue
            if "sess" in a:
                sessions.setdefault(a["sess"], []).append(r)
                continue
            if r.op in ("read_file", "write_file", "append_file"):
                self.one(w, r, ops, (r.task, a["id"]) in faulted)
            elif r.op == "close" and str(a["id"]).startswith("z"):
                for k, rs in sessions.items():
                    if rs[0].a["f"] == a["f"] and rs[0].proc == r.proc:
                        rs.append(r)
        for k, rs in sessions.items():
            self.session_op(w, rs, ops)
        i = w.kernel.names.get("/sim/a")
        last = None if i is None else bytes(i.data)
        init = w.program["files"].get("a")
        init = None if init is None else b(init)
        self.hard = 0
        try:
            order = linearize(ops, init, lambda s: s == last)
        except TooHard:
            self.hard = 1
            return
        if order is None:
            w.fail("not atomic", "no order of these operations, consistent with real time, explains their results and "
                   "the final content %r (initial: %r)" % (last, init))

    def stats(self, w):
        return {"histories too hard to decide": getattr(self, "hard", 0)}

    def one(self, w, r, ops, faulted):
        a, kind = r.a, r.op
        cr = creation(kind, a)
        if kind == "read_file":
            def effect(s):
                v = r.val.encode("latin-1") if isinstance(r.val, str) else r.val
                return [s] if s == v else []
        else:
            d = b(a["data"])
            if kind == "write_file":
                def effect(s):
                    return [d]
            else:
                def effect(s):
                    return [s + d]

        def partial(s):
            if s is None:
                return [s]
            if kind == "read_file":
                return [s]
            base = b"" if kind == "write_file" else s
            return [s] + [base + d[:k] for k in range(len(d) + 1)]
        exc = r.exc
        if r.ret is None:
            ops.append(Op(r.inv, None, [creation(kind, a, True), partial], kind, r))
        elif exc is None:
            ops.append(Op(r.inv, r.ret, [cr, effect], kind, r))
        elif exc[0] == "LockingException" or exc[0] == "RuntimeError" and "enforced" in exc[2]:
            ops.append(Op(r.inv, r.ret, [cr], kind, r))
        elif faulted:
            ops.append(Op(r.inv, r.ret, [creation(kind, a, True), partial], kind, r))
        elif exc[0] == "FileNotFoundError":
            ops.append(Op(r.inv, r.ret, [lambda s: [s] if s is None else []], kind, r))
        elif exc[0] == "FileExistsError":
            ops.append(Op(r.inv, r.ret, [lambda s: [s] if s is not None else []], kind, r))
        else:
            w.fail("unexpected failure", "%s failed without reason: %s" % (kind, exc))

    def session_op(self, w, rs, ops):
        o = rs[0]
        a = o.a
        if o.op != "open":
            return
        exc = o.exc
        if exc is not None:
            if exc[0] == "LockingException" or exc[0] == "RuntimeError" and "enforced" in exc[2]:
                ops.append(Op(o.inv, o.ret, [creation("session", a)], "open", o))
            elif exc[0] == "FileNotFoundError":
                ops.append(Op(o.inv, o.ret, [lambda s: [s] if s is None else []], "open", o))
            elif exc[0] == "FileExistsError":
                ops.append(Op(o.inv, o.ret, [lambda s: [s] if s is not None else []], "open", o))
            else:
                w.fail("unexpected failure", "rsopen failed without reason: %s" % (exc,))
            return
        for r in rs[1:]:
            if r.exc is not None:
                w.fail("unexpected failure", "%s #%s in a session failed without reason: %s" % (r.op, r.a["id"], r.exc))
        end = rs[-1]
        assert end.op in ("close", "drop"), rs
        ops.append(Op(o.inv, end.ret, [creation("session", a), Session(a, rs[1:])], "session", o))


PROP = C08()
