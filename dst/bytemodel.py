"""The reference: a stream is a byte array with a cursor.

State: (content, position or None if not defined, closed).  step() maps a state, an operation and its recorded result
to the states possible afterwards: none at all means the result is wrong."""
import os

UNSUPPORTED = "UnsupportedOperation"


class Props:
    """What kind of stream it is."""

    def __init__(self, r, w, a, raw, text=False):
        self.r, self.w, self.a, self.raw, self.text = r, w, a, raw, text

    def __repr__(self):
        return "".join(k if getattr(self, k) else "" for k in ("r", "w", "a")) + (
            " raw" if self.raw else " text" if self.text else " buffered")


def enc(v):
    return v.encode("latin-1") if isinstance(v, str) else v


def put(s, pos, d):
    if not d:
        return s
    if pos > len(s):
        s = s + bytes(pos - len(s))
    return s[:pos] + d + s[pos + len(d):]


def step(state, p, a, op, exc, val):
    content, pos, closed = state
    if op == "close":
        return [(content, pos, True)] if exc is None else []
    if closed:
        if exc is None and op == "read" and a.get("m", "read") == "read" and a.get("n", -1) >= 0 and not p.raw \
                and not p.w and content[pos:pos + a["n"]] == enc(val):
            return [(content, pos + len(val), True)]   # _pyio's BufferedReader.read(n) still serves its read-ahead
        return [state] if exc is not None and exc[0] == "ValueError" else []
    m = a.get("m", op) if op == "call" else op
    if op == "read":
        if not p.r:
            return [state] if exc is not None and exc[0] == UNSUPPORTED else []
        if exc is not None:
            return []
        return read(content, pos, a, val, p)
    if op == "write":
        if not p.w:
            return [state] if exc is not None and exc[0] == UNSUPPORTED else []
        if exc is not None:
            return []
        d = enc(a["data"])
        if a.get("m") == "writelines":
            if val is not None:
                return []
            n = [len(d)]
            if p.raw:
                n = range(1 if d else 0, len(d) + 1)   # the caller of a raw writelines() is not told
        else:
            if not isinstance(val, int) or val < 0 or val > len(d) or (not p.raw and val != len(d)) or \
                    (p.raw and d and val == 0):
                return []
            n = [val]
        out = []
        for k in n:
            if p.a:
                new = content + d[:k]
                out.append((new, pos if not d else len(new) if p.raw else None, False))
            elif pos is None:
                return []
            else:
                out.append((put(content, pos, d[:k]), pos + k, False))
        return out
    if op == "seek":
        if exc is not None:
            n, wh = a["n"], a.get("whence", 0)
            base = {0: 0, 1: pos, 2: len(content)}.get(wh)
            if base is None or base + n < 0:
                return [state] if "OSError" in exc[3] or "ValueError" in exc[3] else []
            return []
        wh = a.get("whence", 0)
        base = {0: 0, 1: pos, 2: len(content)}.get(wh, None)
        if base is None:
            if wh == 1 and isinstance(val, int):
                return [(content, val, False)]
            return []
        new = base + a["n"]
        return [(content, new, False)] if val == new and new >= 0 else []
    if exc is not None:
        if m in ("truncate",) and not p.w:
            return [state] if UNSUPPORTED in exc[3] or "OSError" in exc[3] or "ValueError" in exc[3] else []
        if m == "truncate" and a["args"] and a["args"][0] is not None and a["args"][0] < 0:
            return [state] if "OSError" in exc[3] or "ValueError" in exc[3] else []
        return []
    if m == "tell":
        if pos is None:
            return [state]   # appended data still in the buffer: nobody knows where it will land
        return [state] if val == pos else []
    if m == "size":
        return [state] if val == len(content) else []
    if m == "truncate":
        if not p.w:
            return []
        n = a["args"][0] if a.get("args") else None
        if n is None:
            n = pos
            if n is None:
                n = val
        if n < 0 or val != n:
            return []
        return [(content[:n] + bytes(max(0, n - len(content))), pos, False)]
    if m in ("flush", "sync", "unique_id", "times", "readable", "writable", "seekable", "fileno", "isatty", "handle"):
        return [state]
    raise AssertionError("no model for %s" % m)


def read(content, pos, a, val, p):
    m, n = a.get("m", "read"), a.get("n", -1)
    if m == "readall":
        n = -1
    val = enc(val)
    if pos is None:   # position unknown: any substring
        if isinstance(val, list):
            return []
        return [(content, None, False)] if val in content else []
    rest = content[pos:]
    if m in ("readline", "next"):
        i = rest.find(b"\n")
        line = rest if i < 0 else rest[:i + 1]
        if m == "readline" and n is not None and n >= 0:
            line = line[:n]
        return [(content, pos + len(line), False)] if val == line else []
    if m == "readlines":
        lines = rest.splitlines(True) if b"\r" not in rest else [x + b"\n" for x in rest.split(b"\n")]
        return [(content, max(pos, len(content)), False)] if [enc(x) for x in val] == lines else []
    if m == "peek":
        ok = isinstance(val, bytes) and rest.startswith(val) and (bool(val) or not rest)
        return [(content, pos, False)] if ok else []
    if not isinstance(val, bytes):
        return []
    want = rest if n is None or n < 0 else rest[:n]
    partial = m in ("read1",) or (p.raw and m in ("read", "readinto") and n is not None and n >= 0)
    if partial:
        if not want.startswith(val) or (want and not val):
            return []
    elif val != want:
        return []
    return [(content, pos + len(val), False)]


def sets(p, content, pos=0):
    return (content, pos, False)
