"""C24: code written for the io module gets the same from rsfile."""
from .. import twin
from ..engine import Prop
from ..gens import Gen

SHORT = {"write": [("short", 0.3)], "read": [("short", 0.3)], "readinto": [("short", 0.3)]}
ENDS = ["\n", "\r\n", "\r"]
BASES = ("TypeError", "ValueError", "AttributeError", "OSError", "UnicodeDecodeError", "UnicodeEncodeError", "LookupError",
         "StopIteration", "OverflowError", "AssertionError", "RuntimeError")


class Twins:
    """Every call is repeated on the interpreter's own implementation, over files of its own: same outcome, same files."""

    def __init__(self):
        self.stats, self.env, self.off = {}, {}, False

    def returned(self, t, r):
        w = self.world
        if r.op != "twin" or r.skipped or t.proc.dead or w.violation or self.off:
            return
        env = self.env.setdefault(t.proc, {})
        a = r.a
        if "p" not in a:
            return
        exc = val = None
        try:
            val = twin.perform(w, t.proc, env, twin.pristine(w.platform), a, "r_")
        except Exception as e:
            exc = w.classify(e)
            e.__traceback__ = None
        if str(a["id"])[0] == "z":
            env.pop(a["f"], None)
        self.stats["calls compared"] = self.stats.get("calls compared", 0) + 1
        if "faults" in w.program["chooser"] and any(
                "UnicodeError" in x[3] for x in (exc, r.exc) if x):
            self.off = True     # when a wrong byte is met depends on how much is read in advance
            return
        if a["m"] == "attr" and (exc is not None and exc[0] == "AttributeError" or r.val == "closed"):
            return              # more attributes than in the standard library, and another mode once closed
        if a["m"] == "seek" and exc is not None:
            self.off = True     # _pyio's BufferedRandom.seek() which fails forgets its position
        if a.get("path") == "" and exc is not None and r.exc is not None:
            return
        if a.get("opener") == "flags" and r.exc is not None and r.exc[0] == "TypeError":
            if exc is None:
                env.pop(a["f"]).close()
            return w.known("opener-gets-mode-string", "%s: the opener got a mode string instead of flags" % r.show())
        if exc is not None and r.exc is not None and (exc[0] == "TypeError" and "closed file" in r.exc[2] or
                                                      "closed file" in exc[2] and "TypeError" in r.exc[3]):
            return              # two errors in one call
        if (exc and exc[0]) != (r.exc and r.exc[0]) and {exc and exc[0], r.exc and r.exc[0]} == {None, "ValueError"} and \
                a["m"] in ("read", "readline", "read1", "peek", "next", "list", "readlines") and \
                getattr(env.get(a["f"]), "closed", False):
            return              # _pyio's closed buffers still serve what they hold
        if exc is not None:
            self.stats["errors compared"] = self.stats.get("errors compared", 0) + 1
            if r.exc is None:
                return w.fail("error missing", "%s, the standard library raises %s" % (r.show(), exc))
            want = [b for b in exc[3] if b in BASES]
            if not set(want) <= set(r.exc[3]) or exc[1] != r.exc[1] and not ("ValueError" in exc[3] and exc[1] is None):
                return w.fail("different error", "%s, the standard library raises %s" % (r.show(), exc))
        elif r.exc is not None:
            return w.fail("unexpected error", "%s, the standard library returns %r" % (r.show(), val))
        elif val != r.val or type(val) is not type(r.val):
            return w.fail("different result", "%s, the standard library returns %r" % (r.show(), val))
        if a["m"] in ("close", "flush", "with", "truncate", "detach") and r.exc is None or a["m"] in twin.MAKERS:
            self.compare(r, a["p"])

    def compare(self, r, p):
        names = self.world.kernel.names
        i, j = names.get("/sim/" + p), names.get("/sim/r_" + p)
        i, j = i and [oct(i.mode), bytes(i.data)], j and [oct(j.mode), bytes(j.data)]
        if i != j:
            self.world.fail("different file", "after %s, %s holds %r instead of %r" % (r.show() if r else "the end", p, i, j))


class C24(Prop):
    id = "C24"
    quick = 25000
    thorough = 600000
    progress = True
    rule = ("An io module is patched by monkey_patch_io_module(). One or two threads open streams through it (open() with "
            "all standard modes and arguments, right and wrong, FileIO and the buffered and text classes stacked by hand, "
            "descriptors, openers), and make random calls of the io interface: reads of all kinds, writes, seeks, "
            "positions, truncation, iteration, attributes, detach, with-blocks, calls on closed streams, wrong arguments. "
            "Each call is repeated on the interpreter's own _pyio over files of its own on the same simulated kernel; "
            "results, types of errors, errno and files must be the same, also when the kernel splits the transfers "
            "of rsfile.")
    real = ["all of rsfile", "_pyio"]
    stubs = ["kernel (files, descriptors)", "scheduler and threading primitives"]

    def gen(self, rng):
        g = Gen(rng)
        files, tasks = {}, []
        plain = rng.random() < 0.45     # nothing tells how the kernel splits transfers
        for k in range(rng.choice([1, 1, 1, 2])):
            path = "f%d" % k
            if rng.random() < 0.85:
                alphabet = "ab\n" if rng.random() < 0.6 else "ab\n\r"
                alphabet += "" if rng.random() < 0.6 else "\xc3\xa9" if rng.random() < 0.7 else "\xff\xe9\x80"
                files[path] = "".join(rng.choice(alphabet) for _ in range(rng.choice([0, 3, 10, 30, 90])))
            ops = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                self.session(g, rng, ops, path, plain)
            tasks.append({"name": "T%d" % k, "proc": "P0", "ops": ops})
        for p in list(files):
            files["r_" + p] = files[p]
        cfg = {"kernel": {"blksize": rng.choice([4096, 16, 64])}}
        if len(tasks) > 1 and rng.random() < 0.4:
            cfg["lines"] = True
        return {"procs": ["P0"], "files": files, "tasks": tasks,
                "chooser": g.chooser("lines" in cfg, SHORT if plain else None, 1000), "cfg": cfg}

    # ---- one stack of streams, from its opening to its end
    def session(self, g, rng, ops, path, plain):
        T = lambda m, **kw: ops.append(g.op("twin", m=m, p=path, **dict({"path": path} if m == "open" else {}, **kw)))
        v = g.var()
        stack = []
        mode = rng.choice(["r", "w", "a", "x", "r+", "w+", "a+", "x+", "r", "r+", "a+", "w+"])
        kind = rng.choice(["b", "b", "t", "t", "raw", "hand"])
        if kind == "raw" and plain:
            kind = "b"
        x = rng.random()
        if x < 0.07:
            T("open", f=v, **self.wrong(rng, path))
            if rng.random() < 0.6:
                return
            v = g.var()
        name, kw = path, {}
        fd = None
        if x > 0.9:
            fd = g.var("d")
            T("osopen", f=fd, path=path, flags=2)
            name = {"fd": fd}
            kw["closefd"] = False
            mode = rng.choice(["r", "r+", "w", "a", "w+"])
        elif x > 0.86:
            kw["opener"] = None
        text = kind == "t"
        if plain and kind != "b":       # (text is read in advance, as much as the kernel gives)
            mode = mode.replace("+", "")
        if kind == "hand":
            n = rng.randint(1, 3)
            raw, v = v, g.var()
            cls = "BufferedRandom" if "+" in mode else "BufferedReader" if mode[0] == "r" else "BufferedWriter"
            if rng.random() < 0.08:
                cls = rng.choice(["BufferedRandom", "BufferedReader", "BufferedWriter"])
            if rng.random() < 0.05:
                T("FileIO", f=g.var(), path=path, args=[rng.choice(["rt", "wt", "rw", "", "z", "t", "b", "rb+", "+r", "aw", "rr", 3])])
            T("FileIO", f=raw, path=name, args=[mode + rng.choice(["b", ""])], **(
                {"kw": {"closefd": kw["closefd"]}} if "closefd" in kw else {}), **(
                {"style": "names"} if rng.random() < 0.1 else {}))
            T(cls, f=v, over=raw, args=rng.choice([[], [1], [2], [5], [16], [100]]))
            stack = [raw, v]
            if n == 3 or rng.random() < 0.3:
                b, v = v, g.var()
                T("TextIOWrapper", f=v, over=b, args=[], kw=self.text_args(rng, True))
                stack.append(v)
                text = True
        else:
            opener = kw.pop("opener", 0) is None
            m = mode + ("" if text and rng.random() < 0.7 else "t" if text else "b")
            if len(m) > 1 and rng.random() < 0.2:
                m = m[0] + m[1:][::-1]
            how = {}
            if rng.random() < 0.15:
                how["style"] = rng.choice(["names", "positions"])
            if not fd and rng.random() < 0.08:
                how["form"] = rng.choice(["bytes", "path"])
            if kind == "raw":
                kw["buffering"] = 0
            elif rng.random() < 0.6:
                kw["buffering"] = rng.choice([-1, 2, 5, 16, 100] + ([1] if text else []))
            if text:
                kw.update(self.text_args(rng, False))
            T("open", f=v, path=name, args=[m], kw=kw, **how, **({"opener": "rw" if set("wax+") & set(mode) else "r"} if opener else {}))
            if rng.random() < 0.12 and not fd:
                self.second(g, rng, T, path, plain)
        g.app, g.both = mode[0] == "a", "+" in mode
        wr = mode[0] in "wax" or "+" in mode
        rd = mode[0] == "r" or "+" in mode
        self.calls(g, rng, ops, path, v, kind == "raw", text, rd, wr, plain)
        if stack and rng.random() < 0.2:
            d = g.var()
            T("detach", f=v, to=d)
            below = len(stack) == 2
            if not plain:       # (what was read in advance depends on how much the kernel gave)
                self.calls(g, rng, ops, path, d, below, False, rd, wr, plain)
            T(rng.choice(["close", "flush", "with"]), f=v)
            v = d
        y = rng.random()
        T("with" if y < 0.2 else "close", f=v)
        if y > 0.75:      # what closed streams say
            self.calls(g, rng, ops, path, v, kind == "raw", text, rd, wr, plain, 3)
        for s in reversed(stack):
            T("close", f=s)
        if fd is not None:
            T("osclose", f=fd)

    def second(self, g, rng, T, path, plain):
        """A second stream on the same file while the first one is open: nothing is locked by default."""
        v = g.var()
        T("open", f=v, path=path, args=[rng.choice(["rb", "r+b", "ab"] + ["wb"] * (not plain))])
        for _ in range(rng.randint(0, 3)):
            T(*rng.choice([("tell",), ("flush",), ("readable",)]), f=v)
        T("close", f=v)

    @staticmethod
    def text_args(rng, cls):
        kw = {}
        if rng.random() < 0.8:
            kw["encoding"] = rng.choice(["utf-8", "utf-8", "latin-1", "ascii", "utf-16", "utf-8-sig"])
        if rng.random() < 0.5:
            kw["errors"] = rng.choice(["strict", "replace", "ignore", "backslashreplace", "surrogateescape"])
        if rng.random() < 0.6:
            kw["newline"] = rng.choice(["", "\n", "\r\n", "\r"])
        if cls and rng.random() < 0.2:
            kw["line_buffering"] = True
        return kw

    @staticmethod
    def wrong(rng, path):
        return rng.choice([
            dict(path=path, args=[rng.choice(["", "rw", "wa", "rbt", "z", "b", "t", "+", "r++", "rr", "bb", "rbb", "xw", "ra"])]),
            dict(path="nope", args=[rng.choice(["r", "rb", "r+b"])]),
            dict(path="nodir/x", args=[rng.choice(["r", "wb", "x"])]),
            dict(path="", args=["r"]),
            dict(path=path + "\0", args=["rb"]),
            dict(path=path, args=["rb"], kw={"closefd": False}),
            dict(path=path, args=["rb"], kw={"encoding": "utf-8"}),
            dict(path=path, args=["rb"], kw={"errors": "strict"}),
            dict(path=path, args=["rb"], kw={"newline": ""}),
            dict(path=path, args=["r"], kw={"newline": "x"}),
            dict(path=path, args=["r"], kw={"buffering": 0}),
            dict(path=path, args=["r"], kw={"encoding": "no-such-codec"}),
            dict(path=None, args=["r"]), dict(path=1.5, args=["r"]), dict(path=[], args=["r"]),
            dict(path=path, args=[3]), dict(path=path, args=["rb"], kw={"buffering": "x"}),
            dict(path=path, args=["rb"], opener="flags"),
            dict(path=path, args=["r"], kw={"encoding": 3}), dict(path=path, args=["r"], kw={"errors": 3}),
            dict(path=path, args=["r"], kw={"newline": 3}),
        ])

    def calls(self, g, rng, ops, path, v, raw, text, rd, wr, plain, n=None):
        T = lambda m, **kw: ops.append(g.op("twin", m=m, p=path, f=v, **kw))
        for _ in range(n or rng.choice([2, 5, 9, 15])):
            x = rng.random()
            if rng.random() < 0.05:
                a, b = rng.random() < 0.5, rng.random() < 0.5
            else:
                a, b = rd, wr
            n = rng.choice([-1, 0, 1, 2, 3, 7, 20, 100])
            if x < 0.3 and a:
                m = rng.choice(["read", "read", "readline", "next", "list", "readlines"] if text else
                               ["read", "read", "next", "readlines", "list"] +
                               ([] if plain else ["readinto", "readline", "readall"] if raw else
                                ["readinto", "readline", "read1", "readinto1", "peek"]))
                if m in ("readinto", "readinto1"):
                    T(m, n=abs(n), buf=rng.choice(["bytes", "array"]))
                elif m in ("next", "list", "readall"):
                    T(m)
                elif rng.random() < 0.04:
                    T(m, args=[rng.choice(["x", None, -5])])
                else:
                    T(m, args=rng.choice([[n], [n], []]))
            elif x < 0.55 and b:
                s = "".join(rng.choice("ab\n" if rng.random() < 0.8 else "\xe9\r\n") for _ in range(rng.choice([0, 1, 3, 8, 30])))
                k = "str" if text else rng.choice(["bytes", "bytes", "bytes", "bytearray", "memoryview", "array", "array2"])
                if rng.random() < 0.03:
                    k = rng.choice(["str", "int", "bytes"])
                if raw and plain:
                    k = "bytes"
                T(rng.choice(["write", "write", "write", "writelines"]), data=[[k, s]] * rng.choice([1, 1, 2]))
            elif x < 0.62:
                if text and plain:
                    T("flush")
                elif text:
                    T(rng.choice(["mark", "back"]))
                else:
                    T("tell")
            elif x < 0.75:
                if text:            # (positions of text streams are opaque)
                    T("seek", args=rng.choice([[0], [0, 2], [0, 0] if plain else [0, 1], [0, 0], [3, 1], [-1], [-1, 2], [0, 9]]), opaque=True)
                else:
                    T("seek", args=rng.choice([[0], [3], [10, 0], [0, 2], [-2, 2], [2, 1], [-1, 1], [-1], [150], [0, 7], [-500, 2], [4, 2]]))
            elif x < 0.82 and (b or rng.random() < 0.2):
                if g.app:
                    T("flush")      # (what it truncates to by default otherwise depends on what was buffered)
                if not text:
                    T("truncate", args=rng.choice([[], [None], [0], [5], [12], [40], [-1]]))
                else:
                    T("truncate", args=rng.choice(([] if plain else [[]]) + [[0], [5]]))
                if g.both:          # (_pyio's own BufferedRandom would still serve erased bytes)
                    T("seek", args=[rng.choice([0, 4])] if not text else [0])
            elif x < 0.88:
                T("flush")
            elif x < 0.97:
                T(*rng.choice([("closed",), ("readable",), ("writable",), ("seekable",), ("isatty",), ("mode",), ("name",)] +
                              ([("encoding",), ("errors",), ("closed" if plain else "newlines",), ("line_buffering",)] if text else [])), attr=1)
                o = ops[-1]
                del o["attr"]
                if o["m"] in ("closed", "mode", "name", "encoding", "errors", "newlines", "line_buffering"):
                    o["name"], o["m"] = o["m"], "attr"
            elif text and rng.random() < 0.5 and not (plain and rd):
                T("reconfigure", kw=rng.choice([{"line_buffering": True}, {"newline": "\n"}, {"encoding": "latin-1"},
                                                {"errors": "replace"}, {"write_through": True}]))
        return

    def valid(self, program):
        return True

    def monitors(self, program):
        return [Twins()]

    def final(self, w):
        for m in w.monitors:
            if isinstance(m, Twins) and not m.off:
                for p in ("f0", "f1"):
                    m.compare(None, p)

    def nontrivial(self, w):
        return True


PROP = C24()
