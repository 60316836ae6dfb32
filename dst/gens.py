"""Generators of programs shared by several properties."""
import random

LENS = [None, None, 0, 1, 4, 5, 10, 10, 20, 100]
OFFS = [None, 0, 0, 5, 10, 10, 15, 20, 30]
FAR = [(1 << 31) - 3, (1 << 31), (1 << 32) - 5, (1 << 32), (1 << 40), (1 << 62)]

RAW_MODES = ["RWB", "RWBN", "WB", "RB", "RWAB", "AB", "r+b", "rb", "ab", "a+b", "RWBS", "RWBI"]
NEW_MODES = ["RWCB", "WCB", "RWC", "WC", "RWACB", "RWCEB", "WEB", "RWEB", "x+b", "xb", "x", "wb", "w+b", "w", "RWB", "WB", "AB", "RWIB"]
TEXT_MODES = ["RW", "R", "W", "RWA", "r+", "r", "a"]


PATHS = ("open", "rawio", "wrapper_io", "read_file", "write_file", "append_file")


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.v = 0

    def op(self, name, **kw):
        self.n += 1
        if name in PATHS and self.rng.random() < 0.06:
            kw.setdefault("form", self.rng.choice(["bytes", "bytes", "path", "abs", "odd"]))
        return dict({"id": self.n, "op": name}, **kw)

    def var(self, p="f"):
        self.v += 1
        return "%s%d" % (p, self.v)

    def chooser(self, lines=None, faults=None, max_faults=3):
        r = self.rng
        c = dict(p_sys=r.choice([0.05, 0.15, 0.3, 0.5, 0.8]), p_park=r.choice([0, 0, 0, 0.3]))
        if lines:
            c["line_gap"] = r.choice([5, 15, 40, 120, 400])
        if faults:
            c["faults"] = faults
            c["max_faults"] = max_faults
        return c

    def rng_range(self, far=0.1, whence=0.15):
        """A lock range as lock_file arguments."""
        r = self.rng
        d = {}
        n = r.choice(LENS)
        o = r.choice(OFFS)
        if r.random() < far:
            o = r.choice(FAR)
        if n is not None or r.random() < 0.3:
            d["length"] = n
        if o is not None:
            d["offset"] = o
        if o is not None and o < 1000 and r.random() < whence:
            d["whence"] = r.choice([1, 2])
        return d


def stream_opts(g, mode, text=False):
    r = g.rng
    d = {}
    if not text:
        d["buffering"] = r.choice([0, 0, 0, 1024, 7, None])
        if d["buffering"] is None:
            del d["buffering"]
    else:
        d["encoding"] = "utf-8"
        if r.random() < 0.5:
            d["buffering"] = r.choice([16, 1024])
    d["thread_safe"] = r.random() < 0.6
    return d


def open_op(g, var, path, mode, locking=False, timeout=None, **kw):
    text = not ("b" in mode or "B" in mode)
    d = stream_opts(g, mode, text)
    if not locking:
        d["locking"] = False
    else:
        if timeout is not None:
            d["timeout"] = timeout
    d.update(kw)
    return g.op("open", f=var, path=path, mode=mode, **d)


def can(mode):
    from .world import mode_flags
    f = mode_flags(mode)
    return f["r"], f["w"]


class LockGen(Gen):
    """Programs of tasks that open, lock, use, unlock and close streams on few files, without hold-and-wait."""

    def __init__(self, rng, **o):
        Gen.__init__(self, rng)
        self.o = o
        self.paths = o.get("paths") or (["a"] if rng.random() < 0.7 else ["a", "b"])

    def get(self, k, d):
        v = self.o.get(k, d)
        return v() if callable(v) else v

    def tmo(self):
        return self.rng.choice(self.o.get("timeouts") or [0, 0, 0.05, 0.1, 0.25, 0.5, 1.0, 2.5])

    def lock_args(self, mode, blocking):
        r = self.rng
        d = self.rng_range(self.get("far", 0.1), self.get("whence", 0.15))
        rd, wr = can(mode)
        x = r.random()
        if rd and wr and x < 0.5:
            d["shared"] = r.random() < 0.6
        elif x < 0.15 + (0 if self.get("illegal", 0.02) else -1):
            d["shared"] = r.random() < 0.5
        elif x < 0.3:
            d["shared"] = not wr
        if not blocking:
            d["timeout"] = self.tmo()
        return d

    def task_ops(self, pname, tname, inherited=None):
        r = self.rng
        ops = []
        streams = dict(inherited or self.shared_of.get(pname, {}))   # var -> (mode, path)
        held = []      # (var, args)
        budget = r.randint(self.get("min_ops", 3), self.get("max_ops", 9))
        modes = self.get("modes", None) or (RAW_MODES if r.random() < 0.8 else RAW_MODES + TEXT_MODES)
        while budget > 0:
            budget -= 1
            x = r.random()
            if not streams or (len(streams) < 3 and x < 0.2):
                v = self.var()
                p = r.choice(self.paths)
                m = r.choice(modes if p != "new" else NEW_MODES)
                if p == "new" and r.random() < 0.5:
                    kw = {"timeout": self.tmo()} if held or r.random() < 0.5 else {}
                    ops.append(open_op(self, v, p, m, True, **kw))
                    streams[v] = (m, p)
                    held.append((v, {"offset": 0}))
                    continue
                if r.random() < self.get("p_wrap", 0):
                    # a descriptor opened by the application, wrapped (perhaps twice) but not owned
                    h = self.var("h")
                    hm, ms = r.choice([("rw", ["RWB", "RB", "WB", "r+b", "RW"]), ("r", ["RB", "rb", "R"]), ("w", ["WB", "WB", "W"])])
                    ops.append(self.op("hopen", fd=h, path=p, mode=hm))
                    n = r.choice([1, 2])
                    for k in range(n):
                        v, m = self.var("w"), r.choice(ms if n == 1 else ms[:-1])
                        o = dict(open_op(self, v, p, m), op="wrap", fd=h, how=r.choice(["fileno", "name", "handle"]),
                                 closefd=False)
                        if n > 1:   # buffers over a file position which others move are nobody's promise
                            o["buffering"] = 0
                        ops.append(o)
                        streams[v] = (m, p)
                    continue
                if r.random() < self.get("p_autolock", 0.12):
                    kw = {}
                    if held:
                        kw["timeout"] = self.tmo()
                    elif r.random() < 0.5:
                        kw["timeout"] = self.tmo()
                    ops.append(open_op(self, v, p, m, True, **kw))
                    streams[v] = (m, p)
                    held.append((v, {"offset": 0}))
                else:
                    ops.append(open_op(self, v, p, m))
                    streams[v] = (m, p)
                continue
            v = r.choice(list(streams))
            m, p = streams[v]
            if x < 0.55:
                block = not held and r.random() < self.get("p_block", 0.6)
                a = self.lock_args(m, block)
                if self.get("intr", 0) and r.random() < self.get("intr", 0):
                    a["intr"] = r.choice([0.01, 0.05, 0.3, 1.0])
                if r.random() < self.get("p_with", 0.3):
                    body = []
                    for _ in range(r.randint(0, 2)):
                        y = r.random()
                        if y < 0.4:
                            body.append(self.op("sleep", s=r.choice(self.o.get("sleeps") or [0.0, 0.01, 0.15, 0.6])))
                        elif y < 0.7:
                            body.append(self.data_op(v, m))
                        else:
                            v2 = r.choice(list(streams))
                            b = self.lock_args(streams[v2][0], False)
                            body.append(self.op("with_lock", f=v2, body=[], **b))
                    o = self.op("with_lock", f=v, body=body, **a)
                    if r.random() < self.get("p_raise", 0.2):
                        o["raise"] = True
                    ops.append(o)
                    if v[0] == "f" and not any(h[0] == v for h in held) and r.random() < self.get("p_tmp", 0):
                        o["tmp"] = 1
                        del streams[v]
                else:
                    ops.append(self.op("lock", f=v, **a))
                    held.append((v, a))
            elif x < 0.75 and held:
                i = r.randrange(len(held))
                v, a = held.pop(i)
                if r.random() < self.get("p_wrong_unlock", 0.08):
                    a = self.rng_range(0.05, 0)
                ops.append(self.op("unlock", f=v, **{k: a[k] for k in ("length", "offset", "whence") if k in a}))
            elif x < 0.85 and r.random() < self.get("p_bad", 0):
                ops.append(self.op("badlock", f=v, **self.bad_args()))
            elif x < 0.85 and r.random() < self.get("p_misc", 0.2):
                ops.append(self.misc_op(held))
            elif x < 0.85:
                ops.append(self.data_op(v, m))
            elif x < 0.9:
                ops.append(self.op("sleep", s=r.choice(self.o.get("sleeps") or [0.001, 0.05, 0.15, 0.5])))
            elif v[0] != "s":
                ops.append(self.op("close" if r.random() < 0.75 else "drop", f=v))
                del streams[v]
                held = [h for h in held if h[0] != v]
        if self.get("intr", 0):
            for o in ops:
                if o["op"] in ("open", "wrap", "read_file", "append_file", "write_file") and o.get("locking", True) \
                        and r.random() < self.get("intr", 0):
                    o["intr"] = r.choice([0.01, 0.05, 0.3, 1.0])
        for v in streams:
            if v[0] != "s" and r.random() < 0.15:
                ops.append(self.op("drop", f=v))
        return ops  # what is left open gets closed at the end of the task

    def bad_args(self):
        """Wrong arguments of a lock or unlock call."""
        r = self.rng
        un = r.random() < 0.35
        kw = self.rng_range(0, 0) if r.random() < 0.6 else {}
        if not un:
            kw["timeout"] = 0
        kw.update(r.choice([{"length": -1}, {"length": "x"}, {"length": 1.5}, {"length": -7}, {"offset": "x"}, {"offset": 1.5},
                            {"offset": -1, "whence": 0}, {"offset": -1000, "whence": 2}, {"whence": 7}, {"whence": "x"},
                            {"whence": None}] + ([] if un else [{"timeout": -1}, {"timeout": "x"}, {"timeout": -0.01},
                                                                {"shared": "x"}, {"shared": 3}])))
        return {"m": "unlock_file" if un else "lock_file", "kw": kw}

    def misc_op(self, held):
        """Activity on the same files which must not disturb anybody's locks."""
        r = self.rng
        p = r.choice(self.paths)
        x = r.random()
        if x < 0.25:
            kw = {"locking": False} if r.random() < 0.5 else {"timeout": self.tmo()}
            if r.random() < 0.5:
                return self.op("read_file", path=p, **kw)
            return self.op("append_file", path=p, data="app", **kw)
        if x < 0.45:   # openings that fail
            kw = r.choice([dict(mode="WCB"), dict(mode="x"), dict(mode="RB", path="sub"), dict(mode="RWN", path="nope"),
                           dict(mode="RW", buffering=0), dict(mode="RW", encoding="nope"),
                           dict(mode="RB", path="nodir/x")])
            return self.op("open", **dict(dict(f=self.var("z"), path=p, locking=False), **kw))
        if x < 0.6:
            return self.op("wrapper_io", f=self.var("z"), path=p, mode=r.choice(["r", "r+", "a", "a+"]))
        if x < 0.8:
            return self.op("rawio", f=self.var("z"), path=p, kw=r.choice([dict(read=True), dict(read=True, write=True),
                                                                         dict(append=True), dict(write=True)]))
        if x < 0.9:
            return self.op("exec")
        return self.op("read_file", path="nope", locking=False)

    def probers(self, procs):
        """One task per process which, once everything else is over, finds the files lockable."""
        out = []
        for i, pn in enumerate(procs):
            ops = [self.op("barrier", order=i)]
            for p in self.paths:
                v = self.var("p")
                ops.append(self.op("open", f=v, path=p, mode="RWB", buffering=0, locking=False, thread_safe=False))
                ops.append(self.op("lock", f=v, timeout=0))
                ops.append(self.op("close", f=v))
            out.append({"name": "Z%d" % i, "proc": pn, "ops": ops, "prober": 1})
        return out

    def killer(self, procs):
        r = self.rng
        return {"name": "K", "proc": procs[0], "ops": [self.op("sleep", s=r.choice([0.0001, 0.001, 0.1, 0.3, 1.0])),
                                                       self.op("kill", proc=r.choice(procs[1:]))]}

    def data_op(self, v, m):
        r = self.rng
        rd, wr = can(m)
        text = not ("b" in m or "B" in m)
        x = r.random()
        if x < 0.25:
            return self.op("seek", f=v, n=0 if text else r.choice([0, 3, 10, 25]), **({"text": 1} if text else {}))
        if x < 0.35:
            return self.op("call", f=v, m=r.choice(["flush", "size", "tell"]))
        if wr and (x < 0.7 or not rd):
            return self.op("write", f=v, data=r.choice(["x", "hello", "abcdefghijkl"]), **({"text": 1} if text else {}))
        if r.random() < 0.25:
            return self.op("read", f=v, m="next", **({"text": 1} if text else {}))
        return self.op("read", f=v, n=r.choice([0, 1, 5, 30]), **({"text": 1} if text else {}))

    def program(self):
        r = self.rng
        np_ = self.get("nprocs", None) or r.choice([1, 1, 2, 2, 2, 3])
        nt = self.get("ntasks", None) or r.choice([2, 2, 3, 3, 4])
        procs = ["P%d" % i for i in range(np_)]
        tasks = []
        self.shared_of = {}
        paths = self.paths
        if r.random() < self.get("p_new", 0.12):
            self.paths = self.paths + ["new", "new"]
        for i, pn in enumerate(procs if r.random() < self.get("p_share", 0) else ()):
            m, p = r.choice(["RWB", "RB", "r+b", "RWAB", "RW"]), r.choice(self.paths)
            self.shared_of[pn] = {"s%d" % i: (m, p)}
        for i in range(max(nt, np_)):
            pn = procs[i] if i < np_ else r.choice(procs)
            td = {"name": "T%d" % i, "proc": pn}
            td["ops"] = self.task_ops(pn, td["name"])
            if i < np_ and pn in self.shared_of:
                (v, (m, p)), = self.shared_of[pn].items()
                td["ops"].insert(0, open_op(self, v, p, m, thread_safe=True, shared_var=1))
            tasks.append(td)
        if np_ > 1 and r.random() < self.get("p_kill", 0):
            tasks.append(self.killer(procs))
        if r.random() < self.get("p_exit", 0):
            t = r.choice(tasks)
            t["ops"].insert(r.randint(0, len(t["ops"])), self.op("die"))
        if self.get("probe", False):
            tasks += self.probers(procs)
        lines = r.random() < self.get("p_lines", 0.35)
        kern = {"nb_errno": r.choice([11, 11, 11, 13])}
        cfg = {"kernel": kern, "lines": lines, "flavour": "linux" if r.random() < 0.8 else "mac"}
        if r.random() < 0.3:
            cfg["options"] = {"default_spinlock_delay": r.choice([0.01, 0.05, 0.3])}
        if "b" in paths and r.random() < self.get("p_alias", 0.3):
            cfg[r.choice(["links", "twins"])] = {"b": "a"}    # one file with two names, or two which look like one
        return {"procs": procs, "files": {p: "0123456789" * r.choice([0, 1, 3]) for p in paths}, "tasks": tasks,
                "cfg": cfg, "chooser": self.chooser(lines, self.get("faults", None), self.get("max_faults", 3))}


def no_hold_and_wait(program):
    """No thread waits (without a timeout) for a lock while it holds another: such programs must always finish."""
    def rec(ops, held):
        for a in ops:
            op = a["op"]
            if op in ("lock", "with_lock"):
                if "timeout" not in a and held and not a.get("intr"):
                    return False
                if op == "with_lock":
                    if not rec(a["body"], held + [(a["f"], None)]):
                        return False
                else:
                    held.append((a["f"], {k: a.get(k) for k in ("length", "offset", "whence")}))
            elif op == "unlock":
                k = (a["f"], {k: a.get(k) for k in ("length", "offset", "whence")})
                if k in held and not a.get("whence"):
                    held.remove(k)
            elif op in ("close", "drop"):
                held[:] = [h for h in held if h[0] != a["f"]]
            elif op in ("open", "wrap"):
                if a.get("locking", True):
                    if "timeout" not in a and held:
                        return False
                    held.append((a["f"], {"length": None, "offset": 0, "whence": None}))
                    held.append((a["f"], {"length": None, "offset": None, "whence": None}))
            elif op in ("read_file", "write_file", "append_file"):
                if "timeout" not in a and a.get("locking", True) and held:
                    return False
            elif op == "hold_mutex":
                if not rec(a["body"], held):
                    return False
            elif op == "fork":
                if not rec(a["task"]["ops"], []):
                    return False
        return True
    return all(rec(t["ops"], []) for t in program["tasks"])
