"""C14: a stream delivers exactly the bytes it was given."""
import io

from ..engine import Prop
from ..gens import Gen
from ..solo import Solo, SoloGen, cut

SHORT = {"read": [("short", 0.5), ("delay", 0.02)], "write": [("short", 0.5), ("delay", 0.02)]}
CODINGS = ["utf-8", "utf-8", "utf-16", "utf-8-sig", "latin-1", "ascii", "utf-32-le", None]


class Texts:
    """Text streams in all encodings are compared, call by call, with the interpreter's own ones over memory."""

    def __init__(self):
        self.stats, self.ref = {}, {}

    def returned(self, t, r):
        w = self.world
        b = r.info.get("box")
        if r.skipped or b is None or w.violation:
            return
        if r.op == "open":
            if r.exc is None:
                mem = io.BytesIO(bytes(b.inode.data))
                if b.flags["a"]:
                    mem.seek(0, 2)
                nl = r.a.get("newline")
                if nl is None and w.program["cfg"].get("flavour", "")[:3] == "win" and b.writable:
                    nl = "\r\n"        # the system's line ends are written
                    if b.readable:
                        self.ref[b] = None, None
                        return
                self.ref[b] = io.TextIOWrapper(mem, r.a.get("encoding", "utf-8"), r.a.get("errors"), nl), mem
            return
        ref, mem = self.ref[b]
        if ref is None or r.op == "call" and r.a["m"] not in ("flush", "size"):
            return
        exc = val = None
        try:
            if r.op == "write":
                val = ref.writelines([r.a["data"]]) if r.a.get("m") == "writelines" else ref.write(r.a["data"])
            elif r.op == "read":
                m, n = r.a["m"], r.a.get("n", -1)
                val = next(ref, b"") if m == "next" else ref.readlines() if m == "readlines" else getattr(ref, m)(n)
            else:
                ref.flush()
        except (UnicodeError, TypeError) as e:
            exc = type(e).__name__
        if r.op == "read" and (exc or r.exc and r.exc[0] in ("UnicodeDecodeError", "TypeError")):
            self.ref[b] = None, None    # when a wrong byte is met depends on how much is read in advance
            return
        got = (r.exc and r.exc[0], r.val if r.op in ("write", "read") else None)
        self.stats["text calls compared"] = self.stats.get("text calls compared", 0) + 1
        if got != (exc, val):
            w.fail("wrong text", "%s, expected %s" % (r.show(), exc or repr(val)))
        elif b.writable and not exc and r.op in ("close", "call") or r.op == "write" and not exc and b.opened_by.a.get("buffering") == 1 and "\n" in r.a["data"]:
            ref.flush()
            if bytes(b.inode.data) != mem.getvalue():
                w.fail("file content wrong", "after %s the file holds %r instead of %r" % (
                    r.show(), cut(bytes(b.inode.data)), cut(mem.getvalue())))


class C14(Prop):
    id = "C14"
    quick = 35000
    thorough = 800000
    progress = True
    rule = ("One to three threads, each with streams of its own (raw, buffered with sizes from 2 bytes, text, append, "
            "thread-safe or not), making random sequences of reads (all variants), writes (all buffer types), seeks, "
            "truncations, flushes and size or position queries, while the kernel splits transfers at random; streams "
            "end by close or by collection. Every result and the file are compared with the byte-array model; text "
            "streams of every encoding, error handler and newline mode also with the interpreter's own over memory.")

    def gen(self, rng):
        if rng.random() < 0.12:
            return self.texts(rng)
        g = SoloGen(rng)
        nt = rng.choice([1, 1, 2, 3])
        files, tasks = {}, []
        for i in range(nt):
            path = "f%d" % i
            files[path] = g.token(rng.choice([0, 5, 17, 40, 120]))
            ops = []
            for k in range(rng.choice([1, 1, 2])):
                v = g.var()
                o, kind, f = g.stream(v, path)
                ops.append(o)
                ops += g.calls(v, kind, f, rng.choice([4, 8, 14, 22]))
                ops.append(g.op("close" if rng.random() < 0.65 else "drop", f=v))
            tasks.append({"name": "T%d" % i, "proc": "P0", "ops": ops})
        ch = g.chooser(False, SHORT if rng.random() < 0.75 else None, 1000)
        return {"procs": ["P0"], "files": files, "tasks": tasks, "chooser": ch,
                "cfg": {"kernel": {"blksize": rng.choice([4096, 16, 64]), "ftrunc_extends": rng.random() < 0.85}}}

    def texts(self, rng):
        g = Gen(rng)
        ops = []
        kw = {}
        c = rng.choice(CODINGS)
        if c:
            kw["encoding"] = c
        if rng.random() < 0.6:
            kw["errors"] = rng.choice(["strict", "replace", "ignore", "backslashreplace", "xmlcharrefreplace", "surrogateescape"])
        for k in range(rng.choice([1, 2, 3])):
            o = dict(kw)
            if rng.random() < 0.75:
                o["newline"] = rng.choice(["", "\n", "\r\n", "\r"])
            if rng.random() < 0.8:
                o["buffering"] = rng.choice([1, 2, 7, 64])
            v = g.var()
            wr = k == 0 or rng.random() < 0.4
            mode = rng.choice(["W", "w", "A", "a", "WE"] if wr else ["R", "r"])
            if mode == "W" and k:
                mode = "WE"
            ops.append(g.op("open", f=v, path="a", mode=mode, thread_safe=rng.random() < 0.3, locking=False, **o))
            for _ in range(rng.choice([1, 3, 6])):
                if wr:
                    d = "".join(rng.choice("ab\n\n\r" + "\u00e9\u20ac\U0001f600") for _ in range(rng.choice([0, 1, 3, 9])))
                    ops.append(g.op("write", f=v, data=d, text=1, m=rng.choice(["write", "write", "writelines"])))
                    if rng.random() < 0.15:
                        ops.append(g.op("call", f=v, m=rng.choice(["flush", "size"])))
                else:
                    m = rng.choice(["read", "read", "readline", "next", "readlines"])
                    ops.append(g.op("read", f=v, m=m, n=rng.choice([-1, 0, 1, 2, 5]), text=1))
            ops.append(g.op("close", f=v))
        first = "" if rng.random() < 0.6 or c in ("utf-16", "utf-32-le") else rng.choice(["x\r\ny\rz\n", "\xe9\n", "\xc3\xa9\r", "ab"])
        return {"procs": ["P0"], "files": {"a": first}, "tasks": [{"name": "T0", "proc": "P0", "ops": ops}], "texts": 1,
                "chooser": g.chooser(False, SHORT if rng.random() < 0.75 else None, 1000),
                "cfg": {"kernel": {"blksize": rng.choice([4096, 16, 64])}}}

    def valid(self, program):
        for t in program["tasks"] if "texts" in program else ():
            if any(o["op"] == "open" and k and t["ops"][k - 1]["op"] != "close" for k, o in enumerate(t["ops"])):
                return False    # one stream at a time
        return True

    def monitors(self, program):
        return [Texts() if "texts" in program else Solo({"data"})]

    def nontrivial(self, w):
        return True


PROP = C14()
