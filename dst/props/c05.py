"""C05: lock timeouts."""
import errno as E

from ..engine import Prop
from ..gens import LockGen, open_op
from ..lockmodel import LockModel
from ..world import DEFAULTS

CLOCKS = {n: [("clock", 0.15)] for n in ("lockf", "unlockf", "sleep", "fstat", "lseek")}
FAULTS = {"lockf": [(E.ENOLCK, 0.1), (E.EDEADLK, 0.1), (E.EINTR, 0.05), ("clock", 0.1)],
          "sleep": [("clock", 0.2), ("delay", 0.03)], "unlockf": [("clock", 0.1)]}


class Options:
    """The options are what was set, and unknown ones are refused."""

    def __init__(self):
        self.stats = {}

    def returned(self, t, r):
        if r.op != "options" or t.proc.dead:
            return
        w = self.world
        self.stats["settings of options judged"] = self.stats.get("settings of options judged", 0) + 1
        if set(r.a.get("kw", ())) - set(DEFAULTS):
            if r.exc is None or r.exc[0] != "ValueError":
                w.fail("unknown option accepted", r.show())
        elif r.exc is not None:
            w.fail("options refused", r.show())
        elif r.val != t.proc.options:
            w.fail("wrong options", "%s, expected %s" % (r.show(), t.proc.options))


class C05(Prop):
    id = "C05"
    quick = 10000
    thorough = 250000
    max_time = 40
    rule = ("Contended lock calls and openings with timeouts from 0 to 30 s, retry delays from 1 ms to 5 s, with and "
            "without the global enforced timeout, against rivals in the same and in other processes, while the wall "
            "clock jumps forth and back at kernel calls and transient kernel refusals are injected; the elapsed "
            "simulated (monotonic) time of every attempt is judged.")

    @staticmethod
    def gone(g, rng, p):
        """A lock attempt on a stream whose descriptor was closed by the application can never succeed: it must end."""
        o = dict(open_op(g, "gone", "g", rng.choice(["RWB", "RB", "WB", "r+b"])), op="wrap", fd="hg", buffering=0,
                 how=rng.choice(["fileno", "handle"]), closefd=False)
        kw = {"timeout": rng.choice([0.3, 7])} if rng.random() < 0.3 else {}
        p["files"]["g"] = "0123"
        p["procs"].append("PG")    # (in a process of its own: descriptor numbers get reused)
        p["tasks"].append({"name": "G", "proc": "PG", "ops": [
            g.op("hopen", fd="hg", path="g", mode="rw"), o, g.op("hclose", fd="hg"), g.op("lock", f="gone", **kw)]})

    def gen(self, rng):
        g = LockGen(rng, faults=rng.choice([CLOCKS, CLOCKS, FAULTS, None]), max_faults=rng.choice([2, 5, 20]), p_block=0.3,
                    p_autolock=0.3, p_with=0.35, p_misc=0.1, p_kill=0.1, far=0.05, p_wrong_unlock=0.02,
                    timeouts=[0, 0, 0.01, 0.1, 0.25, 1, 1.0, 2.5, 7, 30.0], sleeps=[0.01, 0.3, 0.9, 2.4, 6.0, 11.0],
                    ntasks=rng.choice([2, 2, 3, 4]), paths=["a"] if rng.random() < 0.9 else ["a", "b"], max_ops=8)
        p = g.program()
        o = p["cfg"]["options"] = {"default_spinlock_delay": rng.choice([0.001, 0.01, 0.1, 0.1, 0.3, 1.0, 5])}
        if rng.random() < 0.4:
            o["enforced_locking_timeout_value"] = rng.choice([0.05, 0.5, 1, 3.0, 20])
        elif rng.random() < 0.3:
            del p["cfg"]["options"]
        p["cfg"]["lines"] = p["cfg"]["lines"] and rng.random() < 0.4
        if rng.random() < 0.2:
            p["cfg"]["tick"] = 15_625_000
        if rng.random() < 0.4:
            p["tasks"].append({"name": "C", "proc": p["procs"][0], "ops": [
                g.op(*x[:1], **x[1]) for _ in range(3)
                for x in (("sleep", {"s": rng.choice([0.05, 0.2, 1.0, 4.0])}),
                          ("clock", {"s": rng.choice([-1e6, -3600, -2, -0.5, 0.5, 2, 3600, 1e6])}))]})
        x = rng.random()
        if x < 0.04:
            self.gone(g, rng, p)
        elif x < 0.1:
            self.settings(g, rng, p)
        return p

    @staticmethod
    def settings(g, rng, p):
        """A process which changes the options between its attempts on a file that another one keeps locked."""
        p["files"]["o"] = "0123"
        p["procs"] += ["PO", "PH"]
        p["tasks"].append({"name": "H", "proc": "PH", "ops": [
            dict(open_op(g, "oh", "o", "RWB"), locking=False), g.op("lock", f="oh", timeout=0), g.op("sleep", s=200)]})
        ops = [g.op("sleep", s=0.01)]
        limit = None
        for n in range(rng.randint(2, 5)):
            kw = {}
            if rng.random() < 0.7:
                kw["default_spinlock_delay"] = rng.choice([0.002, 0.05, 0.1, 0.7, 2.0])
            if rng.random() < 0.5:
                kw["enforced_locking_timeout_value"] = rng.choice([0.05, 0.5, 2, 6.0, None])
            bad = dict(kw, **{rng.choice(["default_spinlock_delai", "max_input_load_bytes", "timeout", "x"]): 1})
            o = [g.op("options", kw=kw), g.op("options")]
            if rng.random() < 0.4:
                o.insert(rng.randrange(3), g.op("options", kw=bad))
            ops += o
            limit = kw.get("enforced_locking_timeout_value", limit)
            f = "o%d" % n
            tmo = rng.choice([0, 0.02, 0.3, 1.5, 4]) if limit is None or rng.random() < 0.4 else None
            d = open_op(g, f, "o", rng.choice(["RWB", "WAB", "r+b"]))
            if tmo is not None:
                d["timeout"] = tmo
            if rng.random() < 0.6:
                d.pop("timeout", None)
                d["locking"] = False
                ops += [d, g.op("lock", f=f, **({} if tmo is None else {"timeout": tmo}))]
            else:
                d["locking"] = True
                ops.append(d)
        p["tasks"].append({"name": "O", "proc": "PO", "ops": ops})

    def monitors(self, program):
        return [LockModel({"timing", "free"}), Options()]


PROP = C05()
