"""C13: input/output failures are reported, never swallowed."""
import errno as E

from ..engine import Prop
from ..solo import Solo, SoloGen, cut


def b_(s):
    return s.encode("latin-1")


class Helpers:
    """Whole-file helpers used by one thread per path: a normal return means that the effect is complete."""

    def __init__(self):
        self.stats = {}
        self.before = {}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def data(self, r):
        i = self.world.kernel.names.get(self.world.kernel.norm(r.a["path"]))
        return None if i is None else bytes(i.data)

    def invoke(self, t, r):
        if r.op in ("write_file", "append_file", "read_file"):
            self.before[t.name] = self.data(r)

    def returned(self, t, r):
        w = self.world
        if r.op not in ("write_file", "append_file", "read_file") or r.skipped or t.proc.dead or w.violation:
            return
        was, now = self.before.pop(t.name), self.data(r)
        faults = [(n, f[1]) for tn, o, n, f in w.sched.fault_log if tn == r.task and o == r.id and f[0] == "err"]
        if faults:
            self.stat("helper calls hit by a fault")
        if r.op == "read_file":
            if now != was:
                w.fail("reading changed the file", "%s: %r before, %r after" % (r.show(), cut(was or b""), cut(now or b"")))
            elif r.exc is None and (r.val if isinstance(r.val, bytes) else b_(r.val)) != was:
                w.fail("failure swallowed", "%s returned normally, but the file holds %r" % (r.show(), cut(was or b"")))
            return
        d = b_(r.a["data"])
        if r.exc is None:
            self.stat("helper calls that returned normally")
            want = d if r.op == "write_file" else (was or b"") + d
            if now != want:
                w.fail("failure swallowed", "%s returned normally (faults: %s), but the file holds %r instead of %r" % (
                    r.show(), faults, cut(now or b""), cut(want)))
            for n, e in faults:
                if n in ("fsync", "fdatasync", "fullfsync") and e not in (E.EINVAL, E.ENOSYS, E.ENOTSUP):
                    w.fail("failure swallowed", "%s returned normally although %s() failed with errno %s" % (r.show(), n, e))
                if n in ("write", "ftruncate", "close", "unlockf"):
                    w.fail("failure swallowed", "%s returned normally although %s() failed with errno %s" % (r.show(), n, e))
            return
        self.stat("helper calls that failed")
        if not faults and w.kernel.capacity is None:
            w.fail("unexpected failure", "%s although no kernel call failed" % r.show())
        elif r.op == "append_file" and now is not None and not now.startswith(was or b""):
            w.fail("failed append damaged earlier data", "%s: %r before, %r after" % (r.show(), cut(was or b""), cut(now)))
        elif now is not None and r.op == "append_file" and not d.startswith(now[len(was or b""):]):
            w.fail("failed append wrote other data", "%s: %r before, %r after" % (r.show(), cut(was or b""), cut(now)))


class C13(Prop):
    id = "C13"
    quick = 40000
    thorough = 800000
    progress = True
    rule = ("Single-user streams of every kind, and the whole-file helpers, with any kernel call (open, fstat, lseek, read, "
            "write, ftruncate, fsync, fdatasync, full flush, locking, unlocking, close) failing with any plausible errno "
            "at any point, with short transfers, and on disks that fill up. A call that returns normally must have had its "
            "full effect on the byte-array model and on the file; what was accepted before a failure must be delivered "
            "exactly once by the calls that follow.")

    def gen(self, rng):
        g = SoloGen(rng, dict(sync=1, write=5, flush=3, read=2, seek=2, truncate=2, size=2, tell=1))
        files, tasks = {}, []
        for i in range(rng.choice([1, 1, 2])):
            path = "f%d" % i
            if rng.random() < 0.85:
                files[path] = g.token(rng.choice([0, 5, 17, 40]))
            if rng.random() < 0.3:
                ops = []
                for _ in range(rng.choice([2, 3, 5])):
                    kw = dict(locking=rng.random() < 0.7)
                    if rng.random() < 0.3:
                        kw["text"], kw["encoding"], kw["newline"] = 1, "latin-1", ""
                    if rng.random() < 0.4:
                        kw["buffering"] = rng.choice([2, 16, 64] if "text" in kw else [0, 0, 2, 16, 64])
                    x = rng.random()
                    if x < 0.25:
                        if path not in files and not any(a["op"] != "read_file" for a in ops):
                            continue
                        ops.append(g.op("read_file", path=path, **kw))
                    else:
                        if rng.random() < 0.4:
                            kw["sync"] = True
                        ops.append(g.op("write_file" if x < 0.6 else "append_file", path=path,
                                        data=g.token(rng.choice([0, 1, 5, 20, 90])), **kw))
                if path not in files:
                    files[path] = ""
            else:
                ops = []
                for k in range(rng.choice([1, 1, 2])):
                    v = g.var()
                    o, kind, f = g.stream(v, path)
                    ops.append(o)
                    ops += g.calls(v, kind, f, rng.choice([3, 6, 10, 14]))
                    ops.append(g.op("close" if rng.random() < 0.8 else "drop", f=v))
                files.setdefault(path, "abc")
            tasks.append({"name": "T%d" % i, "proc": "P0", "ops": ops})
        p = rng.choice([0.02, 0.05, 0.12])
        faults = {}
        for name, nos in (("open", (E.EIO, E.EMFILE, E.ENOSPC)), ("fstat", (E.EIO, E.EOVERFLOW)), ("lseek", (E.EIO, E.EOVERFLOW)),
                          ("read", (E.EIO,)), ("write", (E.EIO, E.ENOSPC, E.EDQUOT, E.EFBIG)),
                          ("ftruncate", (E.EIO, E.EINVAL, E.EFBIG, E.ENOSPC)), ("fsync", (E.EIO, E.ENOSPC, E.EDQUOT)),
                          ("fdatasync", (E.EIO, E.ENOSPC, E.ENOSYS, E.EINVAL)),
                          ("fullfsync", (E.EIO, E.ENOSPC, E.ENOTSUP, E.EINVAL)), ("close", (E.EIO, E.ENOSPC)),
                          ("lockf", (E.ENOLCK, E.EIO)), ("unlockf", (E.ENOLCK, E.EIO))):
            if rng.random() < 0.6:
                faults[name] = [(e, p) for e in nos]
        if rng.random() < 0.5:
            for n in ("write", "read"):
                faults.setdefault(n, [])
                faults[n] = faults[n] + [("short", 0.3)]
        flavour = rng.choice(["linux", "linux", "mac"])
        kern = {"blksize": rng.choice([4096, 16, 64]), "ftrunc_extends": rng.random() < 0.8,
                "fullfsync": flavour == "mac" and rng.random() < 0.7}
        if not kern["fullfsync"]:
            faults.pop("fullfsync", None)
        if rng.random() < 0.2:
            kern["capacity"] = rng.choice([30, 60, 120])
        return {"procs": ["P0"], "files": files, "tasks": tasks, "chooser": g.chooser(False, faults, rng.choice([1, 1, 2, 4, 20])),
                "cfg": {"kernel": kern, "flavour": flavour}}

    def monitors(self, program):
        return [Solo({"data", "report"}), Helpers()]

    def nontrivial(self, w):
        return True


PROP = C13()
