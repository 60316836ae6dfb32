"""C23: what a stream tells of itself and of its file is true."""
import errno as E
import os

from ..engine import Prop
from ..kernel import NS
from ..solo import SoloGen
from ..world import mode_flags, raw_of

QUERIES = ["unique_id", "unique_id", "uid", "times", "times", "size", "size", "fileno", "handle", "readable", "writable",
           "seekable", "isatty"]
ATTRS = ["name", "mode", "closed", "closed", "origin", "closefd", "encoding"]


class Truth:
    def __init__(self):
        self.stats = {}
        self.ids = {}      # inode -> what its streams said
        self.added = {}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def start(self):
        self.world.kernel.on_install = self.installed

    def installed(self, f):
        t = self.world.sched.current
        r = self.world.inflight.get(t.name) if t is not None else None
        if r is not None:
            r.info.setdefault("fds", []).append(f)

    def invoke(self, t, r):
        b = self.world.box(t, r.a["f"]) if "f" in r.a else None
        if b is not None:
            r.info["shut"] = b.closed
            if b.inode is not None and b.inode.past is not None:
                r.info["from"] = len(b.inode.past) - 1

    def fail(self, r, what, want):
        self.world.fail("wrong " + what, "%s, while it was %s" % (r.show(), want))

    def returned(self, t, r):
        w = self.world
        b = r.info.get("box")
        if r.skipped or t.proc.dead or b is None:
            return
        if r.op in ("open", "rawio", "wrap"):
            i = b.inode
            if i is not None and i.past is None:
                i.past = []
                i.note()
            if r.op != "wrap" and r.exc is None:
                f = t.proc.fds.get(b.fd)
                if f not in r.info.get("fds", ()) or f.ofd.path != w.kernel.norm(r.a["path"]):
                    self.fail(r, "descriptor", "not opened by this call: %s" % b.fd)
            return
        if r.op not in ("call", "attr", "with"):
            return
        m = r.a.get("m", "with")
        if r.exc is not None:
            if r.info.get("shut") and m != "encoding":
                ok = "ValueError" in r.exc[3] and r.op != "attr"
            else:
                ok = any(x[0] == r.task and x[1] == r.id and x[3][0] == "err" for x in w.sched.fault_log) and "OSError" in r.exc[3]
            if not ok:
                w.fail("unexpected failure", r.show())
            return
        if r.info.get("shut") and r.op in ("call", "with") and not (m in ("readable", "writable") and r.val is False):
            w.fail("closed stream answered", r.show())
            return
        self.stat("answers checked")
        getattr(self, "on_" + m, lambda r, b, v: None)(r, b, r.val)

    def on_with(self, r, b, v):
        if not v:
            self.fail(r, "context", "to be the stream itself")
        if not raw_of(b.obj).closed:
            self.fail(r, "state", "to be closed at the end of the block")

    def on_unique_id(self, r, b, v):
        i = b.inode
        if not (isinstance(v, tuple) and len(v) == 2) or self.ids.setdefault(i, v) != v or any(
                x == v and j is not i for j, x in self.ids.items() if (j.dev, j.ino) != (i.dev, i.ino)):
            self.fail(r, "identity", "%s before; other files are %s" % (self.ids.get(i), [x for j, x in self.ids.items() if j is not i]))

    on_uid = on_unique_id

    def seen(self, r, b):
        return b.inode.past[r.info["from"]:]

    def on_times(self, r, b, v):
        p = self.seen(r, b)
        if v[0] not in [x[1] / NS for x in p] or v[1] not in [x[2] / NS for x in p]:
            self.fail(r, "times", " or ".join(str((x[1] / NS, x[2] / NS)) for x in p))

    def on_size(self, r, b, v):
        if v not in [x[0] for x in self.seen(r, b)]:
            self.fail(r, "size", [x[0] for x in self.seen(r, b)])

    def on_fileno(self, r, b, v):
        if v != b.fd or type(v) is not int:
            self.fail(r, "descriptor", b.fd)

    on_handle = on_fileno

    def on_readable(self, r, b, v):
        if v is not b.readable:
            self.fail(r, "capability", b.readable)

    def on_writable(self, r, b, v):
        if v is not b.writable:
            self.fail(r, "capability", b.writable)

    def on_seekable(self, r, b, v):
        if v is not True:
            self.fail(r, "capability", True)

    def on_isatty(self, r, b, v):
        if v is not False:
            self.fail(r, "capability", False)

    def on_closed(self, r, b, v):
        if v is not bool(r.info["shut"]):
            self.fail(r, "state", "closed" if r.info["shut"] else "open")

    def on_name(self, r, b, v):
        o = b.opened_by.a
        if o["op"] != "wrap":
            want = os.fspath(self.world.path(o))
            if v != want or type(v) is not type(want):
                self.fail(r, "name", want)
        if o["op"] == "wrap" and o.get("how") != "opener" and v != b.fd:
            self.fail(r, "name", b.fd)

    def on_origin(self, r, b, v):
        o = b.opened_by.a
        want = "path" if o["op"] != "wrap" else "handle" if o["how"] == "handle" else "fileno"
        if v != want:
            self.fail(r, "origin", want)

    def on_closefd(self, r, b, v):
        if v is not b.closefd:
            self.fail(r, "ownership", b.closefd)

    def on_encoding(self, r, b, v):
        if v != b.opened_by.a["encoding"]:
            self.fail(r, "encoding", b.opened_by.a["encoding"])

    def on_mode(self, r, b, v):
        if r.info["shut"]:
            return
        rd, wr = "r" in v or "+" in v, "+" in v or any(c in v for c in "wax")
        if v == v.upper() and v != v.lower():     # an advanced mode
            f = mode_flags(v)
            rd, wr = f["r"], f["w"]
        if (rd, wr) != (b.readable, b.writable):
            self.fail(r, "mode", "readable: %s, writable: %s" % (b.readable, b.writable))


FAULTS = {"fstat": [(E.EIO, 0.04)], "lseek": [(E.EIO, 0.03)], "close": [(E.EIO, 0.02)]}


class C23(Prop):
    id = "C23"
    quick = 20000
    thorough = 400000
    progress = True
    rule = ("One to three threads in one or two processes open files of two devices which share inode numbers, under "
            "several names, in all modes and layers, wrap descriptors, and question the streams (identity, times, size, "
            "capabilities, descriptors, state) while files are renamed, replaced, linked, removed, changed and touched by "
            "others, and inode numbers are used again; closed streams are questioned too.")

    def gen(self, rng):
        g = SoloGen(rng)
        nproc = rng.choice([1, 1, 2])
        procs = ["P%d" % i for i in range(nproc)]
        tasks = []
        for i in range(rng.choice([1, 2, 2, 3])):
            live, ops = {}, []
            for _ in range(rng.choice([5, 9, 14])):
                x = rng.random()
                if not live or x < 0.15 and len(live) < 3:
                    self.open(g, rng, ops, live)
                    continue
                v = rng.choice(list(live))
                kind, f, wrapped = live[v]
                if x < 0.5:
                    ops.append(self.ask(g, rng, v, kind))
                elif x < 0.7:
                    tx = {"text": 1} if kind[:4] == "text" else {}
                    if f["w"] and rng.random() < 0.7:
                        ops.append(g.op("write", f=v, data=g.token(), **tx))
                    elif f["r"]:
                        ops.append(g.op("read", f=v, n=rng.choice([-1, 1, 5]), **tx))
                    else:
                        ops.append(g.op("call", f=v, m="flush"))
                elif x < 0.9:
                    a = rng.choice(["rename", "replace", "unlink", "link", "utime", "append", "truncate", "rename", "chmod"])
                    p, q = rng.choice(["a", "b", "c", "d"]), rng.choice(["a", "b", "c", "d"])
                    ops.append(g.op("extern", how=a, path=p, to=q, data=g.token(), n=rng.choice([0, 5, 50]), t=rng.choice([1, 5, 2000])))
                elif x < 0.93:
                    ops.append(g.op("sleep", s=rng.choice([0.001, 1.5])))
                else:
                    if rng.random() < 0.4:
                        ops.append(g.op("with", f=v, body=[self.ask(g, rng, v, kind)]))
                    else:
                        ops.append(g.op("close", f=v, keep=1))
                    for _ in range(rng.choice([0, 1, 2])):
                        ops.append(self.ask(g, rng, v, kind))
                    if rng.random() < 0.3:
                        ops.append(g.op("with", f=v, body=[]))
                    del live[v]
            tasks.append({"name": "T%d" % i, "proc": rng.choice(procs), "ops": ops})
        return {"procs": procs, "files": {p: g.token() for p in "abc"}, "tasks": tasks,
                "cfg": {"twins": {"b": "a"}, "flavour": "linux" if rng.random() < 0.8 else "mac"},
                "chooser": g.chooser(False, FAULTS if rng.random() < 0.3 else None, 4)}

    def open(self, g, rng, ops, live):
        v = g.var()
        x = rng.random()
        if x < 0.2:
            h = g.var("h")
            hm, ms = rng.choice([("rw", ["RWB", "RB", "WB", "r+b", "RW"]), ("r", ["RB", "rb", "R"]), ("w", ["WB", "wb", "W"])])
            ops.append(g.op("hopen", fd=h, path=rng.choice("abc"), mode=hm))
            m = rng.choice(ms)
            f = mode_flags(m)
            o = dict(f=v, fd=h, mode=m, how=rng.choice(["fileno", "name", "handle", "opener"]), locking=False)
            kind = "buf" if f["binary"] else "textw"
            o["closefd"] = rng.random() < 0.5 or o["how"] == "opener"
            if not f["binary"]:
                o["encoding"] = "latin-1"
            elif rng.random() < 0.5:
                o["buffering"] = 0
            ops.append(g.op("wrap", **o))
        elif x < 0.3:
            kw = rng.choice([dict(read=True), dict(read=True, write=True), dict(append=True), dict(write=True, must_not_create=True)])
            ops.append(g.op("rawio", f=v, path=rng.choice("abcd"), kw=kw))
            kind, f = "raw", dict(r=kw.get("read", False), w=len(kw) > 1 or "append" in kw)
        else:
            o, kind, f = g.stream(v, rng.choice("abcd"), locking=False)
            ops.append(o)
        live[v] = kind, f, x < 0.2

    def ask(self, g, rng, v, kind):
        if rng.random() < 0.35:
            a = rng.choice(ATTRS)
            if a != "encoding" or kind[:4] == "text":
                return g.op("attr", f=v, m=a)
        return g.op("call", f=v, m=rng.choice(QUERIES))

    def monitors(self, program):
        return [Truth()]

    def nontrivial(self, w):
        return True


PROP = C23()
