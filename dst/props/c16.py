"""C16: truncation and extension are exact."""
import errno as E

from ..engine import Prop
from ..solo import Solo, SoloGen

FAULTS = {"ftruncate": [(E.EIO, 0.12), (E.EINVAL, 0.04), (E.EFBIG, 0.04), (E.ENOSPC, 0.04)],
          "write": [("short", 0.3), (E.ENOSPC, 0.08), (E.EIO, 0.03)], "read": [("short", 0.3)],
          "lseek": [(E.EIO, 0.04)], "fstat": [(E.EIO, 0.04)]}
SHORT = {"write": [("short", 0.5)], "read": [("short", 0.5)]}


class C16(Prop):
    id = "C16"
    quick = 30000
    thorough = 700000
    progress = True
    rule = ("Sequences of calls rich in truncate(), on raw, buffered, text and append streams in every buffer state, with "
            "sizes below, at and beyond the end, on kernels where extension works, is silently without effect (then "
            "emulated by writing zeros), is refused, hits a full disk, or fails half-way; every result, the position and "
            "the file are compared with the byte-array model.")

    def gen(self, rng):
        g = SoloGen(rng, dict(truncate=6, write=4, read=2, seek=2, tell=2, size=2),
                    kinds=["raw", "raw", "buf", "buf", "append", "textw", "textrw"])
        files, tasks = {}, []
        for i in range(rng.choice([1, 1, 2])):
            path = "f%d" % i
            files[path] = g.token(rng.choice([0, 5, 17, 40]))
            v = g.var()
            o, kind, f = g.stream(v, path)
            ops = [o] + g.calls(v, kind, f, rng.choice([3, 6, 10, 16]))
            if not f["w"]:
                ops.append(g.op("call", f=v, m="truncate", args=[3]))
            ops.append(g.op("close" if rng.random() < 0.7 else "drop", f=v))
            tasks.append({"name": "T%d" % i, "proc": "P0", "ops": ops})
        x = rng.random()
        ch = g.chooser(False, FAULTS if x < 0.5 else SHORT if x < 0.8 else None, rng.choice([1, 2, 5, 30]))
        kern = {"blksize": rng.choice([4096, 16]), "ftrunc_extends": rng.random() < 0.6}
        if rng.random() < 0.15:
            kern["capacity"] = rng.choice([20, 60, 120])
        return {"procs": ["P0"], "files": files, "tasks": tasks, "chooser": ch, "cfg": {"kernel": kern}}

    def monitors(self, program):
        return [Solo({"data"})]

    def nontrivial(self, w):
        return True


PROP = C16()
