"""C15: append mode always writes at the current end of file."""
import re

from ..engine import Prop
from ..gens import Gen
from ..solo import cut

SHORT = {"write": [("short", 0.4), ("delay", 0.05)], "read": [("short", 0.3)], "lseek": [("delay", 0.03)]}
TOKEN = re.compile(rb"<[^<>]*>")


class Appends:
    def __init__(self):
        self.stats = {}
        self.boxes = {}      # open file description -> box
        self.emitted = {}    # open file description -> bytes written to the file
        self.by_op = {}      # (task, op id) -> pieces written during the operation
        self.accepted = {}   # box key -> [(task, bytes)]
        self.before = {}     # record of a call in progress -> records accepted before it
        self.events = {}     # inode -> pieces added at the end, in order (None: truncated or overwritten meanwhile)
        self.unsure = set()  # box keys of which nothing can be told any more

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def start(self):
        k = self.world.kernel
        k.on_write = self.on_write
        for i in k.all_inodes():
            if i.kind == "f":
                self.events[i] = [bytes(i.data)]

    def on_write(self, proc, ofd, i, at, data):
        w = self.world
        t = w.sched.current
        self.stat("writes of appending streams")
        if at != len(i.data):
            r = w.inflight.get(t.name)
            w.fail("appended elsewhere than at the end", "%s wrote %r at offset %d of a file of %d bytes" % (
                r.show() if r else t.name, cut(data), at, len(i.data)))
            return
        self.emitted[ofd] = self.emitted.get(ofd, b"") + data
        self.by_op.setdefault((t.name, t.op), []).append((ofd, data))
        ev = self.events.setdefault(i, [b""])
        if ev is not None:
            ev.append(data)

    def spoil(self, i):
        self.events[i] = None

    def invoke(self, t, r):
        if r.op == "call":
            b = self.world.box(t, r.a["f"])
            if b is not None:
                if r.a["m"] == "truncate":
                    self.spoil(b.inode)
                self.before[id(r)] = [d for tn, d in self.accepted.get(b.key, ())]

    def returned(self, t, r):
        w = self.world
        if r.skipped or w.violation or t.proc.dead:
            return
        op = r.op
        if op in ("open", "wrap", "rawio", "wrapper_io"):
            if r.exc is None:
                b = r.info["box"]
                self.boxes[b.ofd] = b
                b.raw15 = r.a.get("buffering") == 0 or op in ("rawio", "wrapper_io")
            return
        mine = b"".join(d for o, d in self.by_op.get((t.name, t.op), ()))
        if op == "append_file":
            if r.exc is None:
                self.stat("helper appends")
                if mine != r.a["data"].encode("latin-1"):
                    w.fail("record lost", "%s wrote %r" % (r.show(), cut(mine)))
            return
        if op == "extern":
            i = w.kernel.names[w.kernel.norm(r.a["path"])]
            if r.a["how"] == "append":
                if self.events.get(i) is not None:
                    self.events[i].append(r.a["data"].encode("latin-1"))
            else:
                self.spoil(i)
            return
        b = r.info.get("box")
        if b is None:
            return
        m = r.a.get("m") if op == "call" else op
        if m == "truncate":
            self.spoil(b.inode)
            if any(d.strip(b"\0") == b"" for o, d in self.by_op.get((t.name, t.op), ())):
                self.unsure.add(b.key)    # extended by writing zeros, since somebody else changed the size meanwhile
        if r.exc is not None:
            if m in ("write", "flush", "close", "size", "sync", "seek", "tell", "truncate") and r.exc[0] not in ("UnsupportedOperation",):
                w.fail("append failed", "%s although nothing failed" % r.show())
            return
        if m == "write":
            d = r.a["data"].encode("latin-1")
            if b.raw15:
                if mine != d[:r.val] or not (r.val or not d):
                    w.fail("record lost", "%s, but it wrote %r" % (r.show(), cut(mine)))
                    return
                d = d[:r.val]
            self.accepted.setdefault(b.key, []).append((t.name, d))
        if m in ("flush", "close", "size", "sync", "truncate", "drop") or m == "write" and b.raw15:
            self.complete(b, r)

    def complete(self, b, r):
        """Everything accepted has reached the file, once, in order."""
        w = self.world
        if b.raw15 or b.key in self.unsure:
            return       # judged call by call
        out = self.emitted.get(b.ofd, b"")
        acc = self.accepted.get(b.key, [])
        self.stat("flushes judged")
        if not b.opened_by.a.get("shared_var"):
            want = b"".join(d for t, d in acc)
            if out != want:
                w.fail("record lost or duplicated", "after %s the stream has written %r instead of %r" % (
                    r.show(), cut(out), cut(want)))
            return
        # several threads: their records may come in any order, each thread's own records in order
        if r.op not in ("close", "drop"):
            for d in self.before.pop(id(r), ()):
                if d not in out:
                    w.fail("record lost", "after %s the stream has written %r, without %r" % (r.show(), cut(out), d))
                    return
            return
        got = TOKEN.findall(out)
        if b"".join(got) != out or sorted(got) != sorted(d for t, d in acc if d):
            w.fail("record lost or duplicated", "after %s the stream has written %r; its threads wrote %r" % (
                r.show(), cut(out), acc))
            return
        for tn in {t for t, d in acc}:
            own = [d for t, d in acc if t == tn and d]
            if [d for d in got if d in own] != own:
                w.fail("records reordered", "after %s the stream has written %r; %s wrote %r in order" % (
                    r.show(), cut(out), tn, own))
                return

    def final(self):
        w = self.world
        for i, ev in self.events.items():
            if ev is not None and b"".join(ev) != bytes(i.data):
                w.violation = w.violation or ("file content wrong", "the file holds %r; what was appended is %r" % (
                    cut(bytes(i.data)), cut(b"".join(ev))))


class C15(Prop):
    id = "C15"
    quick = 20000
    thorough = 300000
    progress = True
    rule = ("Several threads and processes append records to one or two files at once, through streams opened for appending "
            "in every way (standard and advanced modes, raw, buffered, text, RSFileIO and RSFileIOWrapper, wrapped "
            "descriptors, append_to_file), locked or not, shared or private, seeking, reading, flushing and truncating in "
            "between, while another program extends, truncates or rewrites the file and the kernel splits transfers. Each "
            "write must land at the end the file has at that moment; each record arrives exactly once and in order.")

    def gen(self, rng):
        g = Gen(rng)
        procs = ["P%d" % i for i in range(rng.choice([1, 2, 2, 3]))]
        paths = ["a"] if rng.random() < 0.7 else ["a", "b"]
        extern = rng.random() < 0.35
        tasks = []
        self.n = 0

        def token():
            self.n += 1
            return "<%d%s>" % (self.n, "." * rng.choice([0, 1, 4, 12, 40]))

        def opening(v, path, shared=False):
            x = rng.random()
            if shared:
                x = 0.5
            if x < 0.12:
                return [g.op("rawio", f=v, path=path, kw=dict(append=True, read=rng.random() < 0.4,
                                                               synchronized=rng.random() < 0.1))], "raw"
            if x < 0.2:
                return [g.op("wrapper_io", f=v, path=path, mode=rng.choice(["a", "ab", "a+b", "ab+"]))], "raw"
            if x < 0.35:
                h = "h" + v
                m = rng.choice(["a", "ra"])
                return [g.op("hopen", fd=h, path=path, mode=m),
                        g.op("wrap", fd=h, f=v, mode=rng.choice(["AB", "ab"] if m == "a" else ["AB", "RWAB", "a+b"]),
                             how=rng.choice(["fileno", "handle", "name", "opener"]), locking=False,
                             fixed=["fd", "how"])], "buf"
            mode = rng.choice(["AB", "RWAB", "ab", "a+b", "A", "a", "WAB", "ABS", "ABN", "ab+"])
            kw = {}
            text = "b" not in mode and "B" not in mode
            kind = "buf"
            y = rng.random()
            if text:
                kw["encoding"], kw["newline"] = "latin-1", ""
                kind = "text"
            elif y < 0.3:
                kw["buffering"] = 0
                kind = "raw"
            if kind != "raw" and y < 0.8:
                kw["buffering"] = rng.choice([2, 8, 30, 100])
            kw["locking"] = rng.random() < 0.25 and not shared
            return [g.op("open", f=v, path=path, mode=mode, thread_safe=shared or rng.random() < 0.5, **kw)], kind

        def use(v, kind, mode, n, shared=False):
            ops = []
            rd = any(c in mode for c in "rR+")
            for _ in range(n):
                x = rng.random()
                text = {"text": 1} if kind == "text" else {}
                if x < 0.55:
                    ops.append(g.op("write", f=v, data=token(), **text))
                elif x < 0.7:
                    ops.append(g.op("call", f=v, m=rng.choice(["flush", "flush", "size"])))
                elif x < 0.82 and not (shared and kind == "text"):
                    if kind == "text":
                        ops.append(g.op("seek", f=v, n=0, whence=rng.choice([0, 2]), text=1))
                    else:
                        ops.append(g.op("seek", f=v, n=rng.choice([0, 0, 3, 50]), whence=rng.choice([0, 0, 2])))
                elif x < 0.92 and rd:
                    ops.append(g.op("read", f=v, m="read", n=rng.choice([1, 5, 40])))
                elif x < 0.95 and extern and kind != "text":
                    ops.append(g.op("call", f=v, m="truncate", args=[rng.choice([0, 5, 30])]))
                else:
                    ops.append(g.op("yield"))
            return ops

        nt = rng.choice([2, 2, 3, 4])
        for k in range(nt):
            pn = procs[k % len(procs)]
            ops = []
            for _ in range(rng.choice([1, 1, 2])):
                path = rng.choice(paths)
                if rng.random() < 0.15:
                    for _ in range(rng.choice([1, 2])):
                        ops.append(g.op("append_file", path=path, data=token(), locking=rng.random() < 0.6,
                                        buffering=rng.choice([None, 0, 4])))
                    continue
                v = g.var()
                o, kind = opening(v, path)
                ops += o
                mode = o[-1].get("mode") or ("a+" if o[-1]["kw"].get("read") else "a")
                ops += use(v, kind, mode, rng.choice([2, 4, 7]))
                ops.append(g.op("close" if rng.random() < 0.75 else "drop", f=v))
            tasks.append({"name": "T%d" % k, "proc": pn, "ops": ops})
        if rng.random() < 0.35:
            path = rng.choice(paths)
            o, kind = opening("sh", path, True)
            o[0]["shared_var"] = 1
            o[0]["fixed"] = ["thread_safe"]
            tasks.append({"name": "S", "proc": procs[0], "ops": o + [g.op("barrier"), g.op("close", f="sh")]})
            for k in range(rng.choice([2, 3])):
                tasks.append({"name": "S%d" % k, "proc": procs[0],
                              "ops": [g.op("await", f="sh")] + use("sh", kind, o[0]["mode"], rng.choice([2, 4, 6]), True)})
        if extern:
            ops = []
            for _ in range(rng.choice([1, 2, 4])):
                ops.append(g.op("yield"))
                ops.append(g.op("extern", path=rng.choice(paths), **rng.choice([
                    dict(how="append", data="[x]"), dict(how="append", data="[longer line of another program]"),
                    dict(how="truncate", n=0), dict(how="truncate", n=7), dict(how="write", at=1, data="W")])))
            tasks.append({"name": "X", "proc": procs[-1], "ops": ops})
        if len(procs) > 1 and rng.random() < 0.1:
            tasks.append({"name": "K", "proc": procs[0], "ops": [g.op("yield"), g.op("yield"), g.op("kill", proc=procs[1])]})
        lines = rng.random() < 0.2
        return {"procs": procs, "files": {p: rng.choice(["", "head\n", "0123456789" * 3]) for p in paths}, "tasks": tasks,
                "chooser": g.chooser(lines, SHORT if rng.random() < 0.6 else None, 50),
                "cfg": {"lines": lines, "kernel": {"blksize": rng.choice([4096, 16, 64])},
                        "flavour": "linux" if rng.random() < 0.8 else "mac"}}

    def monitors(self, program):
        return [Appends()]

    def final(self, w):
        w.monitors[0].final()


PROP = C15()
