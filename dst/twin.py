"""The same call on rsfile's streams and on those of the standard library, over the same simulated kernel."""
import array
import pathlib
import types


MAKERS = ("open", "FileIO", "BufferedReader", "BufferedWriter", "BufferedRandom", "TextIOWrapper", "osopen")


DEFAULTS = [("buffering", -1), ("encoding", None), ("errors", None), ("newline", None), ("closefd", True), ("opener", None)]


def patched(proc):
    """An io module patched by rsfile, as an application gets it."""
    m = getattr(proc, "twin_io", None)
    if m is None:
        m = types.ModuleType("io")
        proc.rs.rs.monkey_patch_io_module(m)
        if isinstance(m.open, staticmethod):
            m.open = m.open.__func__
        proc.twin_io = m
    return m


def pristine(platform):
    """The interpreter's own implementation."""
    m = getattr(platform, "pristine", None)
    if m is None:
        m = platform.pristine = platform.load_pyio()
    return m


def canon(v):
    if isinstance(v, (bytes, bytearray, memoryview)):
        return bytes(v)
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return "<object>"


def data(x):
    """Data to write, from its description in the program."""
    kind, v = x
    if kind == "str":
        return v
    if kind == "int":
        return len(v)
    b = v.encode("latin-1")
    if kind == "bytearray":
        return bytearray(b)
    if kind == "memoryview":
        return memoryview(b)
    if kind == "array":
        return array.array("b", b)
    if kind == "array2":
        return array.array("H", b[:len(b) & ~1])
    return b


def perform(world, proc, env, io, a, prefix):
    m, f = a["m"], a.get("f")
    kw = dict(a.get("kw", ()))
    if m == "open":
        path = a["path"]
        if isinstance(path, str):
            path = path and prefix + path
            if a.get("form"):
                path = path.encode() if a["form"] == "bytes" else pathlib.PurePosixPath(path)
        elif isinstance(path, dict):
            path = env[path["fd"]]
        if a.get("opener"):
            k = world.kernel
            fl = {"rw": 2, "r": 0}.get(a["opener"])

            def opener(p, flags):
                if fl is None and not isinstance(flags, int):
                    raise TypeError("the flags %r are not an integer" % (flags,))
                return k.open(proc, p, flags if fl is None else fl, 0o644, "harness")
            kw["opener"] = opener
        if a.get("style") == "names":
            env[f] = io.open(**dict(zip(("file", "mode"), [path] + a["args"]), **kw))
        elif a.get("style") == "positions":
            n = max([DEFAULTS.index(x) for x in DEFAULTS if x[0] in kw], default=-1) + 1
            env[f] = io.open(path, *(a["args"] + ["r"])[:1], *[kw.get(k, v) for k, v in DEFAULTS[:n]])
        else:
            env[f] = io.open(path, *a["args"], **kw)
        return None
    if m == "FileIO":
        path = a["path"]
        path = prefix + path if isinstance(path, str) else env[path["fd"]]
        env[f] = io.FileIO(**dict(zip(("file", "mode"), [path] + a["args"]), **kw)) if a.get("style") else \
            io.FileIO(path, *a["args"], **kw)
        return None
    if m in ("BufferedReader", "BufferedWriter", "BufferedRandom", "TextIOWrapper"):
        env[f] = getattr(io, m)(env[a["over"]], *a["args"], **kw)
        return None
    if m == "osopen":
        env[f] = world.kernel.open(proc, prefix + a["path"], a["flags"], 0o644, "harness")
        return None
    if m == "osclose":
        world.kernel.close(proc, env.pop(f))
        return None
    s = env[f]
    if m == "detach":
        env[a["to"]] = s.detach()
        return None
    if m == "attr":
        v = getattr(s, a["name"])
        if a["name"] == "name" and isinstance(v, (str, bytes)):
            v = v.replace("r_" if isinstance(v, str) else b"r_", v[:0])
        elif a["name"] == "name" and isinstance(v, int):
            v = "<descriptor>"
        return canon(v)
    if m == "with":
        with s as x:
            return x is s
    if m == "next":
        return canon(next(s, None))
    if m == "list":
        return canon(list(s))
    if m in ("write", "writelines"):
        d = [data(x) for x in a["data"]]
        return getattr(s, m)(d[0] if m == "write" else d)
    if m in ("readinto", "readinto1"):
        b = bytearray(b"\xa5" * a["n"]) if a.get("buf") != "array" else array.array("H", b"\xa5\xa5" * (a["n"] // 2))
        n = getattr(s, m)(b)
        return [n, bytes(b)]
    if m == "seek" and a.get("opaque"):
        s.seek(*a["args"])
        return None
    if m == "back":       # to a position it told before
        c = env.get((f, "cookie"))
        if c is None:
            return None
        s.seek(c)
        return None
    if m == "mark":
        env[f, "cookie"] = s.tell()
        return None
    if m == "peek":
        return canon(s.peek(*a["args"]))
    return canon(getattr(s, m)(*a.get("args", ()), **kw))
