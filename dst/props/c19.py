"""C19: pipes, fifos, devices and non-blocking descriptors."""
import errno as E

from ..engine import Prop, walk_ops
from ..gens import Gen
from ..solo import cut
from ..world import mode_flags, raw_of

POSITION = ("seek", "tell", "truncate", "lock", "unlock", "lock_file", "unlock_file")
MAYBE_EMPTY = ("read1", "readline", "peek", "next", "readlines", "iter")   # have no other way to say "nothing yet"


class Side:
    """What is known about one stream on a pipe."""

    def __init__(self, b):
        self.box, self.raw = b, raw_of(b.obj) is b.obj or raw_of(b.obj) is getattr(b.obj, "wrapped_stream", None)
        self.text = not b.flags["binary"]
        self.buf = bytearray()     # taken from the kernel, not delivered yet
        self.pend = bytearray()    # accepted, not in the kernel yet
        self.lost = False          # a failure makes further accounting impossible
        self.users = set()


class Pipes:
    def __init__(self):
        self.stats = {}
        self.sides = {}
        self.shared = {}    # inode -> [[results], [records]] of streams with several users
        self.all = {}       # inode -> everything written

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def start(self):
        self.world.kernel.on_pipe = self.on_pipe

    def on_pipe(self, what, i, data):
        t = self.world.sched.current
        r = self.world.inflight.get(t.name) if t else None
        if what == "in":
            self.all.setdefault(i, bytearray()).extend(data)
        if r is None:
            return
        if what in ("in", "out"):
            r.info.setdefault(what, bytearray()).extend(data)
        else:
            r.info[what] = r.info.get(what, 0) + 1
            self.stat("kernel: " + what)

    def faults(self, t, r):
        return [n for tn, o, n, f in self.world.sched.fault_log if tn == r.task and o == r.id and f[0] == "err"]

    def returned(self, t, r):
        w = self.world
        if r.skipped or w.violation:
            return
        fl = self.faults(t, r)
        if r.op in ("open", "wrap"):
            self.opened(t, r, fl)
            return
        if r.op in ("read_file", "write_file", "append_file"):
            self.helper(r, fl)
            return
        b = r.info.get("box")
        s = self.sides.get(b)
        if s is None:
            return
        inn, out = bytes(r.info.get("in", b"")), bytes(r.info.get("out", b""))
        m = r.a.get("m") if r.op == "call" else r.op
        if r.op == "read":
            m = r.a.get("m", "read")
        if r.op == "unlock" or r.op == "lock":
            m = r.op
        self.stat("calls on pipes")
        if r.a.get("shared"):
            self.shared_call(r, s, m)
            return
        if r.exc and (fl or r.exc[0] == "BrokenPipeError" or r.exc[1] == E.EPIPE):
            if not fl and not r.info.get("broken"):
                w.fail("unjustified failure", "%s, although the pipe was not broken" % r.show())
            if not (s.raw and (m == "write" or m in ("read", "readinto") and r.a.get("n", -1) >= 0)):
                s.lost = True
            elif out or inn:
                w.fail("data moved by a failed call", "%s, which moved %r" % (r.show(), cut(inn or out)))
            return
        if m in ("close", "drop"):
            s.pend += b""
            self.drain(r, s, inn)
            if r.exc and r.exc[0] == "BlockingIOError" and r.info.get("again"):
                s.lost = True
                return
            if r.exc:
                w.fail("unjustified failure", "%s" % r.show())
            elif s.pend and not s.lost and (m == "close" or not r.info.get("again")) and not (m == "drop" and fl or r.info.get("broken")):
                w.fail("accepted data never delivered", "%s, but %r was accepted and did not reach the pipe" % (r.show(), cut(bytes(s.pend))))
            s.lost = True
            return
        if s.lost or (b.closed and r.exc):
            return
        if m == "write":
            self.write(r, s, inn)
        elif r.op == "read":
            self.read(r, s, m, out)
        else:
            if out:
                w.fail("query consumed data", "%s consumed %r" % (r.show(), cut(out)))
            self.drain(r, s, inn)
            if r.exc and r.exc[0] == "BlockingIOError":
                if not r.info.get("again") or s.raw or m not in ("flush", "size", "sync", "seek", "tell", "lock", "unlock", "truncate"):
                    w.fail("failure for lack of room", "%s" % r.show())
                return
            if m == "flush":
                if r.exc:
                    w.fail("unjustified failure", r.show())
                elif s.pend:
                    w.fail("accepted data never delivered", "%s, but %r is still not in the pipe" % (r.show(), cut(bytes(s.pend))))
            elif m in POSITION and b.inode.kind == "p":
                if not r.exc:
                    w.fail("positioning on a pipe", r.show())
            elif m in ("lock", "unlock", "truncate"):
                if not r.exc:
                    w.fail("locking a device", r.show())
            elif m == "seekable":
                if r.val is not False:
                    w.fail("seekable pipe", r.show())

    def opened(self, t, r, fl):
        b = r.info.get("box")
        if b is None:
            if not fl and not r.a.get("bad") and r.exc:
                self.world.fail("opening refused", "%s, on a pipe or device" % r.show())
            return
        if b.inode.kind in "pc":
            self.sides[b] = Side(b)
            self.stat("streams on pipes and devices")

    def helper(self, r, fl):
        inn, out = bytes(r.info.get("in", b"")), bytes(r.info.get("out", b""))
        if fl or r.info.get("broken"):
            return
        if r.exc:
            self.world.fail("helper failed on a fifo", r.show())
        elif r.op == "read_file":
            v = r.val if isinstance(r.val, bytes) else r.val.encode("utf-8")
            if v != out:
                self.world.fail("wrong data", "%s returned %r but took %r from the fifo" % (r.show(), cut(v), cut(out)))
        else:
            d = r.a["data"].encode("utf-8" if r.a.get("text") else "latin-1")
            if d != inn:
                self.world.fail("wrong data", "%s put %r into the fifo" % (r.show(), cut(inn)))

    def drain(self, r, s, inn):
        """What got into the pipe must be the oldest accepted data."""
        if s.lost:
            return
        if bytes(s.pend[:len(inn)]) != inn:
            self.world.fail("wrong data sent", "%s put %r into the pipe, pending was %r" % (r.show(), cut(inn), cut(bytes(s.pend))))
            return
        del s.pend[:len(inn)]

    def write(self, r, s, inn):
        w = self.world
        d = r.a["data"].encode("utf-8" if r.a.get("text") else "latin-1")
        again = r.info.get("again")
        if s.raw:
            if r.exc:
                w.fail("failure for lack of room", r.show())
            elif r.val is None:
                if not again or inn:
                    w.fail("wrong count", "%s put %r into the pipe" % (r.show(), cut(inn)))
            elif not isinstance(r.val, int) or s.box.inode.kind == "p" and d[:r.val] != inn or (d and not r.val):
                w.fail("wrong count", "%s put %r into the pipe" % (r.show(), cut(inn)))
            self.stat("raw writes refused" if r.val is None else "raw writes")
            return
        if s.box.inode.kind == "c":
            if r.exc or r.val != len(r.a["data"]):
                w.fail("wrong count", r.show())
            return
        if r.exc is None:
            if r.val != len(r.a["data"]):
                w.fail("wrong count", r.show())
                return
            s.pend += d
        elif r.exc[0] == "BlockingIOError":
            k = r.info.get("written")
            self.stat("buffered writes partly refused" if k else "buffered writes refused")
            if not again or not isinstance(k, int) or not 0 <= k <= len(d) or (k == len(d) and d):
                w.fail("wrong count", "%s (characters_written: %r)" % (r.show(), k))
                return
            s.pend += d[:k]
        else:
            w.fail("unjustified failure", r.show())
            return
        self.drain(r, s, inn)

    def read(self, r, s, m, out):
        w = self.world
        again, eof = r.info.get("again", 0), r.info.get("eof", 0)
        had = bytes(s.buf)
        s.buf += out
        n = r.a.get("n", -1)
        if n is None:
            n = -1
        if r.exc and r.exc[0] == "UnicodeDecodeError" and s.text and eof:
            try:
                s.buf.decode("utf-8")
            except UnicodeDecodeError:      # the writer died within a character
                s.lost = True
                return
        if r.exc:
            w.fail("failure for lack of data" if r.exc[0] == "BlockingIOError" else "unjustified failure", r.show())
            return
        v = r.val
        if v is None:
            self.stat("reads with nothing ready")
            if not again or s.buf or m in MAYBE_EMPTY:
                w.fail("None although data was there", "%s; %r was at hand" % (r.show(), cut(bytes(s.buf))))
            return
        if isinstance(v, list):
            v = (b"" if not s.text else "").join(v)
        if isinstance(v, str):
            nv = len(v)
            v = v.encode("utf-8")
        else:
            nv = len(v)
        if not s.buf.startswith(v):
            w.fail("wrong data", "%s; next should be %r" % (r.show(), cut(bytes(s.buf))))
            return
        if m == "peek":
            return
        del s.buf[:len(v)]
        if s.raw and s.buf:
            w.fail("data lost", "%s; %r was taken from the pipe and not delivered" % (r.show(), cut(bytes(s.buf))))
            return
        if n > 0 and m not in ("readall", "readlines", "iter", "next") and nv > n:
            w.fail("too much data", r.show())
            return
        if n == 0 and m in ("read", "readinto", "readline", "read1"):
            return
        if not v:
            self.stat("ends of stream")
            if not (eof or again and m in MAYBE_EMPTY) or s.buf:
                w.fail("end of stream reported too early", "%s; %r is at hand%s" % (
                    r.show(), cut(bytes(s.buf)), ", nothing was ready" if again else ""))
            return
        self.stat("reads with data")
        if eof or again:
            if s.buf and (m in ("readall", "readlines", "iter") or m == "read" and n < 0) and not again:
                w.fail("data held back", "%s; %r is left" % (r.show(), cut(bytes(s.buf))))
            return
        if m in ("readline", "next"):
            full = v.endswith(b"\n") or (n > 0 and nv == n and m == "readline")
        elif m == "read" and not s.raw:
            full = n >= 0 and nv == n
        else:
            full = m not in ("readall", "readlines", "iter") and not (m == "read" and n < 0)
        if not full:
            w.fail("short read", "%s, although neither the end nor a lack of data was met" % r.show())

    # ---- streams used by several threads at once
    def shared_call(self, r, s, m):
        e = self.shared.setdefault(s.box, ([], []))
        if r.exc:
            if r.exc[0] == "BrokenPipeError" or m in ("close", "drop"):
                return
            self.world.fail("unjustified failure", r.show())
        elif r.op == "read":
            if r.val:
                v = r.val
                e[0].append((r, v))
        elif r.op == "write":
            e[1].append(r)

    def finish(self):
        w = self.world
        for b, (reads, writes) in self.shared.items():
            total = bytes(self.all.get(b.inode, b""))
            if reads:
                seen = bytearray(len(total))
                for r, v in reads:
                    k = total.find(v)
                    if k < 0 or any(seen[k:k + len(v)]):
                        w.fail("wrong data", "%s; the pipe carried %r" % (r.show(), cut(total)))
                        return
                    seen[k:k + len(v)] = b"\1" * len(v)
                done = all(t["ended"] for t in w.program["tasks"] if "ended" in t)
                if not all(seen) and done and any(r.info.get("eof") for r in w.history):
                    w.fail("data lost", "bytes %r of %r were delivered to nobody" % (
                        bytes(c for c, x in zip(total, seen) if not x), cut(total)))
                    return
                self.stat("shared readers judged")
            if writes:
                at = 0
                left = total
                for r in writes:
                    d = r.a["data"].encode("latin-1")[:r.val]
                    k = left.count(d)
                    if k != 1:
                        w.fail("wrong data sent", "%s: found %d times in the pipe, which carried %r" % (r.show(), k, cut(total)))
                        return
                last = {}
                for r in writes:
                    k = total.find(r.a["data"].encode("latin-1")[:r.val])
                    if k < last.get(r.task, -1):
                        w.fail("records out of order", "%s; the pipe carried %r" % (r.show(), cut(total)))
                        return
                    last[r.task] = k
                self.stat("shared writers judged")


CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
WIDE = "\u00e9\u00e0\u20ac\u4e2d\U0001f600"


class C19(Prop):
    id = "C19"
    quick = 20000
    thorough = 400000
    progress = True
    rule = ("Programs in which library streams (raw, buffered, text; wrapped by number, handle, name or opener, or opened by the "
            "name of a fifo or of /dev/null) read from and write to pipes of 8 to 64 bytes, blocking or not, against another library stream or a plain "
            "peer that is slow, closes early or is killed; with short transfers, spurious refusals and errors of the "
            "kernel. Every call is judged against what the kernel took from it or gave it; streams shared by threads, against what the pipe carried as a whole.")

    def gen(self, rng):
        self.rng = rng
        g = self.g = Gen(rng)
        x = rng.random()
        if x < 0.62:
            return self.flow(g, rng)
        if x < 0.76:
            return self.shared(g, rng)
        if x < 0.92:
            return self.fifo(g, rng)
        return self.device(g, rng)

    def data(self, n, text):
        rng = self.rng
        out = []
        while len(out) < n:
            c = CHARS[self.at % len(CHARS)]
            self.at += 1
            x = rng.random()
            out.append("\n" if x < 0.12 else rng.choice(WIDE) if text and x < 0.3 else c)
        return "".join(out)

    def sizes(self, cap):
        r = self.rng
        return r.choice([0, 1, 1, 2, 3, 5, 8, 9, cap - 1, cap, cap + 1, 2 * cap + 3, r.randint(1, 60)])

    def wrap(self, v, h, rd, text, own):
        g, rng = self.g, self.rng
        mode = rng.choice(["r", "R"] if rd else ["w", "W", "WE", "a", "A", "x"][:5]) if text else rng.choice(
            ["rb", "RB", "RB-"[:2]] if rd else ["wb", "WB", "ab", "AB", "WEB"])
        d = dict(thread_safe=rng.random() < 0.5)
        if text:
            d["encoding"] = "utf-8"
            if rng.random() < 0.5:
                d["newline"] = ""
        d["buffering"] = rng.choice([4, 16, 64, 5] if text else [0, 0, 1000, 2, 7, 16, 64])
        how = rng.choice(["fileno", "handle", "name", "opener"])
        if not own:
            how = rng.choice(["fileno", "handle", "name"])
            d["closefd"] = False
        if how == "name" and mode.upper() == mode:
            how = "fileno"
        return g.op("wrap", f=v, fd=h, mode=mode, how=how, **d), d["buffering"]

    def reader(self, v, raw, text, nb, cap):
        g, rng = self.g, self.rng
        ops = []

        def one():
            n = self.sizes(cap)
            if text:
                m = rng.choice(["read", "read", "readline", "next"])
            elif raw:
                m = rng.choice(["read", "read", "readinto", "readline"])
            else:
                m = rng.choice(["read", "read", "read1", "peek", "readline", "next"][:6 if not nb else 5])
            if m in ("readline",):
                n = -1
            return dict(f=v, m=m, n=n)
        for _ in range(rng.choice([0, 1, 2, 4, 6])):
            x = rng.random()
            if x < 0.75:
                ops.append(g.op("read", **one()))
            elif x < 0.85:
                ops.append(g.op("sleep", s=rng.choice([0.0001, 0.001, 0.01])))
            else:
                ops.append(self.query(v, False))
        x = rng.random()
        if x < 0.15:
            pass          # closes early
        elif x < 0.3 and not nb:
            m = rng.choice(["read", "readlines", "iter"] + (["readall"] if raw else []))
            ops.append(g.op("read", f=v, m=m))
        else:
            n = max(1, self.sizes(cap))
            m = rng.choice(["read", "read", "readinto"] if raw else ["read", "readline"] if text else ["read", "read", "read1"])
            if raw and rng.random() < 0.2:
                m = "readall"
            ops.append(g.op("pull", f=v, m=m, n=n if m != "readline" else -1))
            if nb and rng.random() < 0.5 and not text:
                ops[-1].update(m="read", n=-1)
        return ops

    def query(self, v, wr):
        g, rng = self.g, self.rng
        m = rng.choice(["seek", "tell", "truncate", "lock", "unlock", "size", "seekable", "flush", "fileno", "isatty"])
        if m == "seek":
            return g.op("seek", f=v, n=rng.choice([0, 3]), whence=rng.choice([0, 1, 2]) if rng.random() < 0.3 else 0)
        if m == "lock":
            return g.op("lock", f=v, timeout=0)
        if m == "unlock":
            return g.op("unlock", f=v)
        if m == "truncate":
            return g.op("call", f=v, m=m, args=[0])
        return g.op("call", f=v, m=m)

    def writer(self, v, raw, text, nb, cap):
        g, rng = self.g, self.rng
        ops = []
        kind = {"text": 1} if text else {}
        for _ in range(rng.choice([1, 2, 3, 5, 7])):
            x = rng.random()
            if x < 0.65:
                d = self.data(self.sizes(cap), text)
                if nb and rng.random() < 0.6:
                    ops.append(g.op("push", f=v, data=d, **kind))
                else:
                    if not text and rng.random() < 0.3:
                        kind = {"as": rng.choice(["bytearray", "memoryview", "array"])}
                    ops.append(g.op("write", f=v, data=d, **kind))
                    kind = {"text": 1} if text else {}
            elif x < 0.75:
                ops.append(g.op("sleep", s=rng.choice([0.0001, 0.001, 0.01])))
            elif x < 0.9:
                ops.append(g.op("call", f=v, m="flush"))
            else:
                ops.append(self.query(v, True))
        if nb and rng.random() < 0.7:
            ops.append(g.op("push", f=v, data="", **kind))
        return ops

    def flow(self, g, rng):
        self.at = 0
        cap = rng.choice([8, 10, 16, 64])
        procs = ["P0", "P1"] if rng.random() < 0.4 else ["P0"]
        pr, pw = procs[0], procs[-1]
        lib = rng.choice(["r", "w", "rw", "rw"])
        text = rng.random() < 0.25
        nb_r = rng.random() < 0.5 and not text
        nb_w = rng.random() < 0.5 and not text
        tasks = []
        if "r" in lib:
            o, buf = self.wrap("r", "pr", True, text, own := rng.random() < 0.6)
            ops = [o] + self.reader("r", buf == 0, text, nb_r, cap)
            ops.append(g.op("close" if rng.random() < 0.8 else "drop", f="r"))
        else:
            ops = []
            for _ in range(rng.choice([0, 1, 3])):
                ops.append(g.op("hread", fd="pr", n=rng.choice([1, 3, 10, 50])))
                ops.append(g.op("sleep", s=rng.choice([0.0001, 0.001, 0.05])))
            if rng.random() < 0.8:
                ops.append(g.op("hread", fd="pr", n=None, chunk=rng.choice([1, 3, 10, 50])))
        tasks.append({"name": "R", "proc": pr, "ops": ops, "ends": ["pr"]})
        if "w" in lib:
            o, buf = self.wrap("w", "pw", False, text, rng.random() < 0.6)
            ops = [o] + self.writer("w", buf == 0, text, nb_w, cap)
            ops.append(g.op("close" if rng.random() < 0.8 else "drop", f="w"))
        else:
            ops = []
            for _ in range(rng.choice([0, 1, 2, 5])):
                ops.append(g.op("hwrite", fd="pw", data=self.data(self.sizes(cap), text), **({"text": 1} if text else {})))
                if rng.random() < 0.5:
                    ops.append(g.op("sleep", s=rng.choice([0.0001, 0.001, 0.05])))
        tasks.append({"name": "W", "proc": pw, "ops": ops, "ends": ["pw"]})
        if len(procs) > 1 and rng.random() < 0.15:
            tasks.append({"name": "K", "proc": "P0" if rng.random() < 0.5 else "P1", "ops": [
                g.op("sleep", s=rng.choice([0.0001, 0.001, 0.01])), g.op("kill", proc="P1"), g.op("kill", proc="P0")]})
        faults = {}
        if rng.random() < 0.6:
            p = rng.choice([0.1, 0.3, 0.6])
            faults["read"] = [("short", p), ("again", p / 2)]
            faults["write"] = [("short", p), ("again", p / 2)]
            if rng.random() < 0.15:
                faults["read"].append((E.EIO, 0.05))
                faults["write"].append((E.EIO, 0.05))
        return self.program(g, rng, procs, tasks, faults, pipes=[
            {"name": "p", "cap": cap, "r": pr, "w": pw, "nb_r": nb_r, "nb_w": nb_w}])

    def program(self, g, rng, procs, tasks, faults, **cfg):
        lines = rng.random() < 0.12
        c = dict({"lines": lines, "flavour": "linux" if rng.random() < 0.8 else "mac"}, **cfg)
        return {"procs": procs, "files": {}, "tasks": tasks, "chooser": g.chooser(lines, faults, rng.choice([2, 6, 40])), "cfg": c}

    def shared(self, g, rng):
        """One thread-safe stream used by several threads; no byte occurs twice."""
        self.at = 0
        cap = rng.choice([8, 16, 64])
        wr = rng.random() < 0.5
        n = rng.choice([2, 2, 3])
        buf = rng.choice([0, 2, 7, 64])
        tasks = []
        nxt = [32]

        def piece(k):
            k = min(k, 250 - nxt[0])
            d = bytes(range(nxt[0], nxt[0] + k)).decode("latin-1")
            nxt[0] += k
            return d
        mode = rng.choice(["wb", "WB", "AB"] if wr else ["rb", "RB"])
        # the owner opens the stream, and closes it once the others are done with it
        o = g.op("wrap", f="s", fd="pw" if wr else "pr", mode=mode, how="fileno", buffering=buf, thread_safe=True)
        for k in range(n):
            ops = [o] if k == 0 else [g.op("await", f="s")]
            if wr:
                for _ in range(rng.choice([1, 2, 4])):
                    d = piece(rng.choice([1, 2, 5, 9, 20]))
                    if d:
                        ops.append(g.op("write", f="s", data=d, shared=1))
                    if rng.random() < 0.3:
                        ops.append(g.op("call", f="s", m="flush", shared=1))
            else:
                for _ in range(rng.choice([0, 1, 2])):
                    ops.append(g.op("read", f="s", m=rng.choice(["read", "readinto" if buf == 0 else "read1"]), n=rng.choice([1, 3, 10, 30]), shared=1))
                ops.append(g.op("pull", f="s", m="read", n=rng.choice([1, 3, 10, 30]), shared=1))
            if k == 0:
                ops += [g.op("barrier", order=0, names=["S%d" % j for j in range(n)]), g.op("close", f="s", shared=1)]
            tasks.append({"name": "S%d" % k, "proc": "P0", "ops": ops, "ends": ["pw" if wr else "pr"] if k == 0 else []})
        if wr:
            tasks.append({"name": "R", "proc": "P1", "ends": ["pr"], "ops": [g.op("hread", fd="pr", n=None, chunk=rng.choice([1, 3, 10]))]})
        else:
            tasks.append({"name": "W", "proc": "P1", "ends": ["pw"], "ops": [
                g.op("hwrite", fd="pw", data=piece(rng.choice([1, 5, 9, 20]))) for _ in range(rng.choice([1, 3, 5]))]})
        faults = {"read": [("short", 0.3)], "write": [("short", 0.3)]} if rng.random() < 0.5 else None
        return self.program(g, rng, ["P0", "P1"], tasks, faults, pipes=[
            {"name": "p", "cap": cap, "r": "P1" if wr else "P0", "w": "P0" if wr else "P1"}])

    def fifo(self, g, rng):
        """Both ends are opened by name, by the library."""
        self.at = 0
        cap = rng.choice([8, 16, 64])
        text = rng.random() < 0.25
        tasks = []
        kw = {"text": 1} if text else {}
        for role in "rw":
            if rng.random() < 0.35:
                if role == "r":
                    ops = [g.op("read_file", path="fifo", **kw)]
                else:
                    ops = [g.op(rng.choice(["write_file", "append_file"]), path="fifo", data=self.data(self.sizes(cap), text), **kw)]
                if text:
                    ops[0].update(encoding="utf-8", newline="")
            else:
                o, buf = self.wrap(role, "-", role == "r", text, True)
                o["op"], o["path"] = "open", "fifo"
                del o["fd"], o["how"]
                if rng.random() < 0.3:
                    o["timeout"] = 0
                ops = [o] + (self.reader if role == "r" else self.writer)(role, buf == 0, text, False, cap)
                ops.append(g.op("close" if rng.random() < 0.8 else "drop", f=role))
            ops[0]["keepit"] = 1
            tasks.append({"name": role.upper(), "proc": "P0" if role == "r" or rng.random() < 0.5 else "P1", "ops": ops})
        faults = {"read": [("short", 0.3)], "write": [("short", 0.3)]} if rng.random() < 0.5 else None
        return self.program(g, rng, ["P0", "P1"], tasks, faults, fifos=[{"path": "fifo", "cap": cap}])

    def device(self, g, rng):
        self.at = 0
        ops = []
        for role in rng.choice(["r", "w", "wr", "rw"]):
            o, buf = self.wrap(role, "-", role == "r", text := rng.random() < 0.25, True)
            o["op"], o["path"] = "open", "/dev/null"
            del o["fd"], o["how"]
            ops.append(o)
            ops += (self.reader if role == "r" else self.writer)(role, buf == 0, text, False, 16)
            ops.append(g.op("close" if rng.random() < 0.8 else "drop", f=role))
        return self.program(g, rng, ["P0"], [{"name": "T", "proc": "P0", "ops": ops}], None)

    def valid(self, program):
        if program["cfg"].get("fifos"):
            return sum(1 for ops, k in walk_ops(program) if ops[k].get("keepit")) == 2
        return True

    def monitors(self, program):
        return [Pipes()]

    def final(self, w):
        if w.violation is None and w.sched.status == "done":
            next(m for m in w.monitors if isinstance(m, Pipes)).finish()


PROP = C19()
