"""C12: synchronised data survives crashes."""
import errno as E

from ..engine import Prop
from ..solo import Solo, SoloGen, UNSUPPORTED, cut

SYNCS = ("fsync", "fdatasync", "fullfsync")


class Tokens:
    """Unique records written through helpers or shared streams: once synchronised, they are durable."""

    def __init__(self):
        self.written = {}      # (proc, var) -> records whose write has returned
        self.at_sync = {}      # record of a sync() in progress -> records it must make durable
        self.due = []          # (inode, record, full)
        self.lost = set()      # inodes of which a failed synchronisation made the kernel forget changes
        self.stats = {}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def faulted(self, r):
        return {n for tn, o, n, f in self.world.sched.fault_log if tn == r.task and o == r.id and f[0] == "err"
                and n in SYNCS}

    def invoke(self, t, r):
        if r.op == "call" and r.a.get("m") == "sync" and r.a.get("tok"):
            b = self.world.box(t, r.a["f"])
            if b is not None:
                self.at_sync[id(r)] = (b, list(self.written.get(b.key, ())))

    def returned(self, t, r):
        w = self.world
        if t.proc.dead or w.violation or r.skipped:
            return
        full = "fullfsync" not in self.faulted(r)
        if "fsync" in self.faulted(r) or r.exc is not None and self.faulted(r):
            i = r.info["box"].inode if "box" in r.info else w.kernel.names.get(w.kernel.norm(r.a["path"]))
            self.lost.add(i)
            self.due = [d for d in self.due if d[0] is not i]
        if r.op in ("write_file", "append_file") and r.a.get("tok"):
            i = w.kernel.names.get(w.kernel.norm(r.a["path"]))
            if r.exc is None and r.a.get("sync"):
                data = r.a["data"].encode("latin-1")
                self.judge(r, i, [data], full, whole=r.op == "write_file")
        elif r.op == "write" and r.a.get("tok"):
            if r.exc is None:
                b = r.info["box"]
                self.written.setdefault(b.key, []).append(r.a["data"].encode("latin-1"))
        elif id(r) in self.at_sync:
            b, toks = self.at_sync.pop(id(r))
            if r.exc is None:
                kw = r.a.get("kw", {})
                self.judge(r, b.inode, toks, full and kw.get("full_flush", True))

    def judge(self, r, i, toks, full, whole=False):
        w = self.world
        k = w.kernel
        if i in self.lost or any(self.faulted(x) for x in w.inflight.values()):
            return
        img = bytearray(i.dur)
        if not (full and k.fullfsync):
            for e in i.devcache:
                k._apply(img, e)
        self.stat("synchronisations of %s" % ("helpers" if r.op != "call" else "shared streams"))
        for d in toks:
            if bytes(img) != d if whole else d not in img:
                w.fail("record not on stable storage", "after %s a crash could leave %r, without %r" % (
                    r.show(), cut(bytes(img)), d))
                return
            self.due.append((i, d, full, whole))

    def crashed(self, power):
        w = self.world
        for i, d, full, whole in self.due:
            if power and w.kernel.fullfsync and not full or whole:
                continue
            self.stat("records judged after a crash")
            if d not in i.data:
                w.fail("synchronised record lost in a crash", "after the crash the file holds %r, without %r" % (
                    cut(bytes(i.data)), d))
                return


class Recovery:
    """After the crash, another process reads what the library left."""

    def __init__(self):
        self.stats = {}

    def returned(self, t, r):
        if t.proc.name != "R" or self.world.violation:
            return
        w = self.world
        if r.op == "read_file":
            i = w.kernel.names.get(w.kernel.norm(r.a["path"]))
            self.stats["files read back after a crash"] = self.stats.get("files read back after a crash", 0) + 1
            if i is None:
                return
            if r.exc is not None or r.val != bytes(i.data):
                w.fail("file unreadable after a crash", "%s, the file holds %r" % (r.show(), cut(bytes(i.data))))


class C12(Prop):
    id = "C12"
    quick = 35000
    thorough = 700000
    progress = True
    rule = ("Streams of every kind that write, flush and synchronise in any order (sync() with any arguments, S-mode "
            "streams), write_to_file and append_to_file with sync=True, and threads that write to a shared stream while "
            "another one synchronises it; on kernels with and without fdatasync, with a device cache that only a full "
            "flush empties, and with synchronisation calls that are unsupported or fail. At each return the image that "
            "a crash at this instant could leave is compared with what must be durable; half of the runs also stop the "
            "machine after a random kernel call, with pending writes lost or torn, and read the files back afterwards.")

    def gen(self, rng):
        g = SoloGen(rng, dict(sync=4, write=5, flush=2, read=2, seek=2, truncate=1, tell=0, size=0),
                    kinds=["raw", "buf", "buf", "append", "textw", "textrw"])
        files, tasks, procs = {}, [], ["P0"]
        shape = rng.choice(["solo", "solo", "solo", "helpers", "helpers", "shared", "mixed"])
        if shape in ("solo", "mixed"):
            for i in range(rng.choice([1, 1, 2])):
                path = "f%d" % i
                files[path] = g.token(rng.choice([0, 5, 17, 40]))
                v = g.var()
                o, kind, f = g.stream(v, path, sync=rng.random() < 0.35)
                ops = [o] + g.calls(v, kind, f, rng.choice([4, 8, 14, 20]))
                ops.append(g.op("close" if rng.random() < 0.7 else "drop", f=v))
                tasks.append({"name": "S%d" % i, "proc": "P0", "ops": ops})
        if shape in ("helpers", "mixed"):
            np = rng.choice([1, 2])
            procs = procs + ["P%d" % i for i in range(1, np)]
            n = 0
            for i in range(rng.choice([1, 2, 3])):
                ops = []
                for _ in range(rng.choice([1, 2, 4])):
                    n += 1
                    kw = dict(sync=rng.random() < 0.75, tok=1, locking=rng.random() < 0.7)
                    if rng.random() < 0.3:
                        kw["text"], kw["encoding"], kw["newline"] = 1, "latin-1", ""
                    if rng.random() < 0.3:
                        kw["buffering"] = rng.choice([2, 16, 64])
                    data = "<%d:%s>" % (n, g.token(rng.choice([0, 3, 20, 90])).replace("\n", "."))
                    if rng.random() < 0.4:
                        ops.append(g.op("write_file", path="w%d" % i, data=data, **kw))
                    else:
                        ops.append(g.op("append_file", path="log", data=data, **kw))
                tasks.append({"name": "H%d" % i, "proc": rng.choice(procs), "ops": ops})
        if shape in ("shared", "mixed"):
            o, kind, f = g.stream("sh", "shared.log", kind="append", sync=rng.random() < 0.2,
                                  thread_safe=True, locking=False, shared_var=1)
            tasks.append({"name": "W0", "proc": "P0", "ops": [o, g.op("barrier")]})
            for i in range(rng.choice([2, 3])):
                ops = [g.op("await", f="sh")]
                for j in range(rng.choice([3, 6])):
                    if rng.random() < (0.25 if i == 0 else 0.6):
                        kw = {}
                        if rng.random() < 0.5:
                            kw["metadata"] = rng.random() < 0.5
                        if rng.random() < 0.5:
                            kw["full_flush"] = rng.random() < 0.5
                        ops.append(g.op("call", f="sh", m="sync", tok=1, kw=kw))
                    else:
                        ops.append(g.op("write", f="sh", tok=1, data="<%d.%d:%s>" % (
                            i, j, g.token(rng.choice([0, 3, 20])).replace("\n", "."))))
                tasks.append({"name": "W%d" % (i + 1), "proc": "P0", "ops": ops})
        flavour = rng.choice(["linux", "linux", "mac"])
        kern = {"blksize": rng.choice([4096, 16, 64]), "fullfsync": flavour == "mac" and rng.random() < 0.8}
        faults = {}
        x = rng.random()
        if x < 0.35:
            no = lambda: [(e, 0.06) for e in (E.EINVAL, E.ENOTSUP)] + [(E.EIO, 0.08), (E.ENOSPC, 0.04)]
            faults = {"fsync": [(E.EIO, 0.1), (E.ENOSPC, 0.05)], "fdatasync": no(), "fullfsync": no()}
        if not kern["fullfsync"]:
            faults.pop("fullfsync", None)
        if x < 0.5 or x > 0.8:
            faults["write"] = [("short", 0.3)]
            for t in tasks:    # pieces of unlocked appends may be interleaved
                for a in t["ops"]:
                    if a["op"] == "append_file":
                        a["locking"], a["fixed"] = True, ["locking"]
        cfg = {"kernel": kern, "flavour": flavour}
        if rng.random() < 0.5:
            cfg["crash"] = {"at": rng.choice([3, 8, 15, 25, 40, 70]) + rng.randint(0, 20), "seed": rng.getrandbits(30),
                            "power": rng.random() < 0.7}
            paths = set(files) | {a["path"] for t in tasks for a in t["ops"] if "path" in a}
            tasks.append({"name": "R0", "proc": "R", "after_crash": 1,
                          "ops": [g.op("read_file", path=p) for p in sorted(paths)]})
        return {"procs": procs, "files": files, "tasks": tasks,
                "chooser": g.chooser(False, faults or None, rng.choice([1, 2, 4, 20])), "cfg": cfg}

    def monitors(self, program):
        return [SoloExcept({"data", "durable"}), Tokens(), Recovery()]

    def nontrivial(self, w):
        return True


class SoloExcept(Solo):
    """Leaves the shared stream to Tokens."""

    def opened(self, r):
        if r.a.get("f") != "sh":
            Solo.opened(self, r)


PROP = C12()
