"""Streams with a single user each, followed step by step by the byte-array model; durability; failures."""
import errno as E

from .bytemodel import Props, enc, put, step
from .gens import Gen
from .world import mode_flags

FULL = (E.ENOSPC, E.EFBIG)
UNSUPPORTED = (E.EINVAL, E.ENOSYS, E.ENOTSUP, E.EOPNOTSUPP, E.ENOTTY)


class Follow:
    """One followed stream."""

    def __init__(self, box, p, states):
        self.box, self.p, self.states = box, p, states
        self.synchronized = False
        self.lost = False      # a failed synchronisation made the kernel forget unwritten data
        self.last = None
        self.nexted = False


class Solo:
    """checks: data, durable, report."""

    def __init__(self, checks):
        self.checks = set(checks)
        self.f = {}
        self.stats = {}
        self.due = {}          # inode -> (content at the last completed synchronisation, full, number of changes then)

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def faults(self, r):
        return [(name, f[1]) for tn, o, name, f in self.world.sched.fault_log
                if tn == r.task and o == r.id and f[0] == "err"]

    # ---- following the calls
    def returned(self, t, r):
        w = self.world
        if r.skipped or t.proc.dead or w.violation:
            return
        op = r.op
        if op in ("open", "wrap"):
            if r.exc is None:
                self.opened(r)
            return
        b = r.info.get("box")
        if b is None or b.key not in self.f:
            return
        s = self.f[b.key]
        exc = r.exc
        faults = self.faults(r)
        failed = exc is not None and (bool(faults) or exc[1] in FULL)
        if faults:
            self.stat("calls hit by a fault")
        if failed:
            self.stat("calls that failed")
        if exc is not None and exc[0] in ("SimInterrupt",):
            s.states = None
            return
        if "report" in self.checks:
            self.reported(r, s, faults)
        if s.states is not None and self.stdlib_limit(s, r):
            s.states = None
        if s.states is not None:
            old = s.states
            if op == "drop":
                new = None if faults or w.kernel.capacity is not None else [(c, q, True) for c, q, z in old]
            elif failed:
                new = self.widen(s, r)
            else:
                new = []
                for x in old:
                    y = self.step(s, x, r)
                    if y is None:
                        new = None
                        break
                    new += y
            if new is not None:
                if new and self.settled(s, r):
                    data = bytes(b.inode.data)
                    here = [x for x in new if x[0] == data]
                    if not here and "data" in self.checks:
                        w.fail("file content wrong", "after %s the file holds %r, it should hold %s (%r)" % (
                            r.show(), cut(data), " or ".join(sorted({repr(cut(x[0])) for x in new})), s.p))
                    new = here or None
                if new is not None:
                    new = list(dict.fromkeys(new))[:64]
                    if not new and "data" in self.checks:
                        w.fail("wrong result", "%s: before it the stream (%r) was %s" % (
                            r.show(), s.p, " or ".join("%r at %s%s" % (cut(c), q, " (closed)" if z else "")
                                                       for c, q, z in old)))
                    if not new:
                        new = None
            s.states = new
            self.stat("calls checked against the byte model")
        if "durable" in self.checks:
            self.durable(t, r, s, faults)

    def opened(self, r):
        b = r.info["box"]
        if b.inode is None or b.inode.kind != "f":
            return
        fl = b.flags
        if "report" in self.checks and fl.get("erase") and not fl.get("create") and len(b.inode.data):
            self.world.fail("failure swallowed", "%s returned normally, but the file was not emptied: %r" % (
                r.show(), cut(bytes(b.inode.data))))
            return
        raw = r.a.get("buffering") == 0 or r.op == "rawio"
        p = Props(b.readable, b.writable, fl["a"], raw, not fl["binary"])
        c = bytes(b.inode.data)
        f = self.f[b.key] = Follow(b, p, [(c, len(c) if fl["a"] else 0, False)])
        f.synchronized = fl.get("sync", False)
        for g in self.f.values():    # only streams that are alone on their file are followed
            if g is not f and g.box.inode is b.inode and not g.box.closed:
                g.states = f.states = None

    def stdlib_limit(self, s, r):
        """Uses which _pyio's own streams are known not to support, so that nothing can be told after them."""
        p = s.p
        m = r.a.get("m", r.op) if r.op in ("call", "read") else r.op
        if r.op == "read" and not p.raw and (m in ("readinto", "readall") or m == "readline" and r.a.get("n", -1) >= 0 and not p.text):
            return True
        if p.text:
            kind = "read" if r.op == "read" else m if m in ("write", "truncate") else None
            last, s.last = s.last, kind or (None if m == "seek" else s.last)
            if kind and last and (kind != last or kind == "truncate"):
                return True     # text streams do not mix reading and writing without a seek in between
            s.nexted = m == "next" or s.nexted and (m != "seek" or r.exc is not None)
            if m == "tell" and (p.r and p.w or s.nexted):
                return True
            if m == "seek" and (r.a["n"] and (p.w or r.a.get("whence", 0))):
                return True
        if p.r and p.w and not p.raw and r.exc is not None and (m == "seek" or any(n == "lseek" for n, e in self.faults(r))):
            return True         # a seek() of BufferedRandom which fails forgets its position
        return False

    def step(self, s, x, r):
        """Normal outcomes; None: nothing can be told any more."""
        c, pos, closed = x
        if pos is None and not closed and r.exc is None and (r.op == "write" and not s.p.a or r.op == "read" and (
                r.a.get("m") in ("readlines", "iter"))):
            return None
        return step(x, s.p, r.a, r.op, r.exc, r.val)

    def settled(self, s, r):
        """Must the file itself show everything now?"""
        if r.op in ("drop",):
            return True
        if r.exc is not None:
            return False
        if s.p.raw:
            return True
        m = r.a.get("m") if r.op == "call" else r.op
        if m in ("size", "sync", "flush", "truncate", "close"):
            return True
        # line buffering
        return m == "write" and s.p.text and s.box.opened_by.a.get("buffering") == 1 and "\n" in r.a["data"]

    def widen(self, s, r):
        """States after a call that failed because the kernel failed."""
        m = r.a.get("m") if r.op == "call" else r.op
        out = []
        data = bytes(s.box.inode.data)
        for c, pos, closed in s.states:
            if closed:
                out.append((c, pos, closed))
                continue
            if m in ("write", "writelines"):
                if s.p.raw:
                    if r.a.get("m") == "writelines":
                        return None
                    out.append((c, pos, False))
                    if self.world.windows:    # what precedes the write itself may have been done
                        if s.p.a:
                            out.append((c, len(c), False))
                        elif pos is not None and len(c) < len(data) <= pos and data == c + bytes(len(data) - len(c)):
                            out.append((data, pos, False))
                    continue
                # it may or may not have been taken into the buffer; nothing accepted before may be lost
                d = enc(r.a["data"])
                out.append((c, pos, False))
                if s.p.a:
                    out.append((c + d, None, False))
                elif pos is None:
                    return None
                else:
                    out.append((put(c, pos, d), pos + len(d), False))
                if s.p.text:   # the text layer has a buffer of its own: pieces of it
                    pass
            elif m in ("flush", "size", "sync", "tell"):
                out.append((c, pos, False))
            elif m in ("read", "peek"):
                out.append((c, None, False))
            elif m == "seek":
                out += [(c, pos, False), (c, None, False)]
                n, wh = r.a["n"], r.a.get("whence", 0)
                base = {0: 0, 1: pos, 2: len(c)}.get(wh)
                if base is not None and base + n >= 0 and s.p.raw:
                    out.append((c, base + n, False))
            elif m == "truncate":
                n = (r.a.get("args") or [None])[0]
                n = pos if n is None else n
                if n is None:
                    n = len(data)    # the position is not known: any size will do
                out += [(c, pos, False), (c, None, False)]
                if n is not None:
                    # the change may have been made, and only what the call does afterwards (such as a last size()) failed
                    d = (c + bytes(max(0, n - len(c))))[:n]
                    out += [(d, pos, False), (d, None, False)]
                if n is not None and n > len(c):
                    # an extension interrupted half-way; what is there beyond the old end must be zeros
                    if len(c) < len(data) <= n and data[:len(c)] == c and not any(data[len(c):]):
                        out += [(data, pos, False), (data, None, False)]
            elif m == "close":
                return None
            else:
                return None
        return out

    # ---- failures are reported
    def reported(self, r, s, faults):
        if r.exc is not None:
            return
        w = self.world
        m = r.a.get("m") if r.op == "call" else r.op
        for name, no in faults:
            if name == "close" and m == "close":
                w.fail("failure swallowed", "%s returned normally although close() failed with errno %s" % (r.show(), no))
            if name == "lseek" and m == "seek" and s.p.raw:
                w.fail("failure swallowed", "%s returned normally although lseek() failed with errno %s" % (r.show(), no))
            if name in ("fsync", "fdatasync", "fullfsync") and no not in UNSUPPORTED and m == "sync":
                w.fail("failure swallowed", "%s returned normally although %s() failed with errno %s" % (r.show(), name, no))

    # ---- durability
    def durable(self, t, r, s, faults):
        w = self.world
        b = s.box
        i = b.inode
        m = r.a.get("m") if r.op == "call" else r.op
        if any(n in ("fsync", "fdatasync", "fullfsync") and no not in UNSUPPORTED for n, no in faults):
            s.lost = True
            self.due.pop(i, None)
            return
        if m == "sync" and r.exc is not None and faults and \
                all(n in ("fdatasync", "fullfsync") and no in UNSUPPORTED for n, no in faults):
            w.fail("synchronisation refused", "%s, only because a variant is not supported: %s" % (r.show(), faults))
            return
        if r.exc is not None or s.lost:
            return
        kw = dict(zip(("metadata", "full_flush"), r.a.get("args", ())), **r.a.get("kw", {}))
        full = meta = False
        if m == "sync":
            full, meta = kw.get("full_flush", True), kw.get("metadata", True)
            if any(n == "fullfsync" for n, e in faults):
                full = False    # refused as unsupported here
            self.stat("synchronisations")
        elif s.synchronized and (m == "write" and s.p.raw or m == "flush"):
            full, meta = False, True
            self.stat("synchronous writes")
        else:
            return
        self.must_be_durable(r, i, bytes(i.data), full, meta)

    def must_be_durable(self, r, i, data, full, meta):
        w = self.world
        k = w.kernel
        img = bytearray(i.dur)
        if not (full and k.fullfsync):
            for e in i.devcache:
                k._apply(img, e)
        if bytes(img) != data:
            w.fail("data not on stable storage", "after %s a crash could leave %r instead of %r%s" % (
                r.show(), cut(bytes(img)), cut(data), " (device cache not flushed)" if full and k.fullfsync else ""))
        if meta and i.dur_mtime != i.mtime:
            w.fail("metadata not on stable storage", "after %s the modification time is not on stable storage" % r.show())
        if i.writes is None:
            i.writes = []
        self.due[i] = (data, full, len(i.writes), i.mtime if meta else None)

    def crashed(self, power):
        """The machine stopped; what had been synchronised must be there, unless changed since."""
        w = self.world
        for i, (data, full, n, mt) in self.due.items():
            if power and w.kernel.fullfsync and not full:
                continue
            gone = bytearray(len(data))
            limit = len(data)
            for e in i.writes[n:]:
                if e[0] == "t":
                    limit = min(limit, e[1])
                else:
                    for p in range(e[1], min(len(gone), e[1] + len(e[2]))):
                        gone[p] = 1
            self.stat("crashes judged")
            bad = [p for p in range(limit) if not gone[p] and (p >= len(i.data) or i.data[p] != data[p])]
            if bad:
                w.fail("synchronised data lost in a crash", "after the crash the file holds %r; %r had been synchronised, "
                       "and byte %d was not written again" % (cut(bytes(i.data)), cut(data), bad[0]))
                return


def cut(d):
    return d if len(d) <= 120 else d[:60] + b"..." + d[-40:] + b"(%d bytes)" % len(d)


# ------------------------------------------------------------------ programs

class SoloGen(Gen):
    """Sequences of calls on one stream that nobody else uses."""

    def __init__(self, rng, weights=None, **o):
        Gen.__init__(self, rng)
        self.w = dict(read=3, write=4, seek=2, tell=1, size=1, flush=1, truncate=1, sync=0)
        self.w.update(weights or {})
        self.o = o
        self.tok = 0

    def token(self, n=None):
        r = self.rng
        self.tok += 1
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 20, 40]) if n is None else n
        t = "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789\n") for _ in range(n))
        return t

    def kind(self):
        return self.rng.choice(self.o.get("kinds") or ["raw", "raw", "buf", "buf", "buf", "append", "textw", "textr", "textrw"])

    def stream(self, v, path, kind=None, sync=None, **kw):
        """(open operation, kind, flags)"""
        r = self.rng
        kind = kind or self.kind()
        o = dict(f=v, path=path, thread_safe=r.random() < 0.4, locking=r.random() < 0.1)
        if kind == "raw":
            o["mode"] = r.choice(["RWB", "RWB", "WB", "RB", "RWAB", "AB", "r+b", "rb", "ab", "a+b", "RWEB", "w+b", "RWBN"])
            o["buffering"] = 0
        elif kind == "buf":
            o["mode"] = r.choice(["RWB", "RWB", "RWB", "WB", "RB", "r+b", "RWEB", "w+b", "RWBN"])
        elif kind == "append":
            o["mode"] = r.choice(["AB", "RWAB", "ab", "a+b"])
        elif kind == "textw":
            o["mode"] = r.choice(["W", "WE", "w", "A", "a"])
        elif kind == "textr":
            o["mode"] = r.choice(["R", "r"])
        else:
            o["mode"] = r.choice(["RW", "r+"])
        if kind in ("buf", "append") and r.random() < 0.85:
            o["buffering"] = r.choice([2, 4, 7, 16, 64, 1000])
        if kind[:4] == "text":
            o["encoding"], o["newline"] = "latin-1", ""
            if r.random() < 0.8:
                o["buffering"] = r.choice([1, 2, 7, 64])
        if (sync if sync is not None else r.random() < 0.05) and o["mode"].isupper():
            o["mode"] += "S"
        o.update(kw)
        f = mode_flags(o["mode"])
        return self.op("open", **o), kind, f

    def pick(self, names):
        return self.rng.choices(names, [self.w.get(n, 0) for n in names])[0]

    def calls(self, v, kind, f, n):
        """n calls on the stream."""
        r = self.rng
        out = []
        names = ["seek", "tell", "size", "flush", "sync"]
        if f["r"]:
            names.append("read")
        if f["w"]:
            names += ["write", "truncate"]
        last = None
        while len(out) < n:
            c = self.pick(names)
            text = kind[:4] == "text"
            tx = {"text": 1} if text else {}
            if kind == "textrw":
                # _pyio's text streams cannot mix reads and writes without seeking in between
                if c in ("read", "write", "truncate") and last in ("read", "write", "truncate") and (c != last or c == "truncate"):
                    out.append(self.op("seek", f=v, n=0, whence=r.choice([0, 2]), **tx))
                    last = "seek"
                if c == "tell":
                    c = "size"
            if kind == "textr" and c in ("tell",) and last == "next":
                c = "size"     # tell() is disabled by next()
            if c == "read":
                o = self.read(kind, v, tx)
                last = "next" if o.get("m") in ("next",) else "read"
                out.append(o)
                continue
            if c == "write":
                d = dict(data=self.token())
                if r.random() < 0.1:
                    d["m"] = "writelines"
                elif not text and r.random() < 0.3:
                    d["as"] = r.choice(["bytearray", "memoryview", "array", "slice", "words", "wordarray", "slice"] +
                                       (["strided"] if kind == "raw" else []))
                out.append(self.op("write", f=v, **d, **tx))
            elif c == "seek":
                if text:
                    wh = r.choice([0, 0, 2])
                    k = 0 if wh == 2 or kind == "textrw" else r.choice([0, 0, 1, 5, 12])
                else:
                    wh = r.choice([0, 0, 0, 1, 2])
                    k = r.choice([0, 1, 3, 8, 20, 45]) if wh == 0 else r.choice([-9, -3, -1, 0, 2, 7]) if wh == 1 else \
                        r.choice([-8, -2, 0, 0, 5])
                    if wh == 1 and kind == "append":
                        wh, k = 0, abs(k)
                    if wh and kind == "buf" and k < 0 and f["r"] and f["w"]:
                        k = 0    # a seek() of _pyio.BufferedRandom which fails forgets its position
                out.append(self.op("seek", f=v, n=k, whence=wh, **tx))
            elif c == "truncate":
                k = r.choice([0, 1, 4, 10, 20, 33, 70, None])
                if text and k is None or kind == "append" and k is None:
                    k = 5
                if text:
                    out.append(self.op("seek", f=v, n=0, whence=r.choice([0, 2]), **tx))
                out.append(self.op("call", f=v, m="truncate", args=[] if k is None and r.random() < 0.5 else [k]))
                if text:
                    out.append(self.op("seek", f=v, n=0, whence=r.choice([0, 2]), **tx))
            elif c == "sync":
                kw = {}
                if r.random() < 0.6:
                    kw["metadata"] = r.random() < 0.5
                if r.random() < 0.6:
                    kw["full_flush"] = r.random() < 0.5
                out.append(self.op("call", f=v, m="sync", kw=kw))
            else:
                out.append(self.op("call", f=v, m=c))
            last = c
        return out

    def read(self, kind, v, tx):
        r = self.rng
        if kind[:4] == "text":
            m = r.choice(["read", "read", "readline", "next"])
            return self.op("read", f=v, m=m, n=r.choice([-1, 1, 3, 8, 30]), **tx)
        ms = ["read", "read", "read", "readline", "next", "readlines", "readinto"]
        ms += ["readall"] if kind == "raw" else ["read1", "peek"]
        m = r.choice(ms)
        n = r.choice([-1, 0, 1, 3, 8, 30])
        if m in ("readinto", "read1", "peek"):
            n = r.choice([1, 2, 3, 8, 30])
        if m == "readinto" and kind != "raw":
            m = "read"       # _pyio's own BufferedReader.readinto() mishandles partly filled buffers
        if m == "readline" and kind != "raw":
            n = -1
        if m == "readinto" and r.random() < 0.6:
            return self.op("read", f=v, m=m, n=n, into=r.choice(["slice", "array", "words"]))
        return self.op("read", f=v, m=m, n=n)
