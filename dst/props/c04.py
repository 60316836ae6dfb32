"""C04: blocked lock requests are granted once the conflict is gone."""
import errno as E

from ..engine import Prop
from ..gens import LockGen, no_hold_and_wait
from ..lockmodel import LockModel

FAULTS = {"lockf": [(E.ENOLCK, 0.08), (E.EDEADLK, 0.08), (E.EAGAIN, 0.03)], "close": [(E.EIO, 0.03)]}


class C04(Prop):
    id = "C04"
    quick = 10000
    thorough = 250000
    progress = True
    rule = ("Programs in which nobody waits for a lock without a timeout while holding another one, and everybody "
            "releases (by unlock, with-block, close, collection, death, exception) what he took: every one of them "
            "must run to its end within an hour of simulated time and a bounded number of steps, whatever the "
            "schedule, with transient kernel refusals injected.")

    def gen(self, rng):
        f = FAULTS if rng.random() < 0.4 else None
        g = LockGen(rng, faults=f, intr=0.1, p_kill=0.25, p_block=0.85, p_autolock=0.25, p_with=0.3, p_raise=0.3,
                    p_misc=0.1, ntasks=rng.choice([2, 3, 3, 4, 5]), paths=["a"] if rng.random() < 0.85 else ["a", "b"],
                    max_ops=7, far=0.03, p_wrong_unlock=0.02)
        if rng.random() < 0.35:
            return self.grid(g, rng)
        while True:
            p = g.program()
            if no_hold_and_wait(p):
                return p

    def grid(self, g, rng):
        """Holders of several cells of one file, who release them one by one; waiters for one or more cells."""
        g.paths = ["a"]
        p = g.program()
        np_ = rng.choice([1, 1, 2])
        p["procs"] = ["P%d" % i for i in range(np_)]
        cells = rng.choice([2, 3, 4])
        mode = rng.choice(["RWB", "RWB", "WB", "r+b"])
        tasks = []
        for i in range(rng.choice([2, 3, 4, 5])):
            holder = i < rng.choice([1, 1, 2])
            v = g.var()
            ops = [g.op("open", f=v, path="a", mode=mode, buffering=0, locking=False, thread_safe=rng.random() < 0.3)]
            if not holder:
                ops.append(g.op("sleep", s=rng.choice([0.01, 0.1, 0.35])))
            mine = []
            for k in range(rng.choice([1, 2, 3]) if holder else 1):
                a = dict(offset=10 * rng.randrange(cells), length=rng.choice([10, 10, 20, None]))
                if mode == "RWB":
                    a["shared"] = rng.random() < 0.3
                if mine:
                    a["timeout"] = 0
                ops.append(g.op("lock", f=v, **a))
                mine.append(a)
            rng.shuffle(mine)
            for a in mine:
                ops.append(g.op("sleep", s=rng.choice([0.01, 0.3, 0.8, 2.0])))
                if rng.random() < 0.8:
                    ops.append(g.op("unlock", f=v, length=a["length"], offset=a["offset"]))
            ops.append(g.op("sleep", s=rng.choice([0.01, 1.0, 3.0])))
            tasks.append({"name": "T%d" % i, "proc": rng.choice(p["procs"]), "ops": ops})
        p["tasks"] = tasks
        return p

    def valid(self, program):
        return no_hold_and_wait(program)

    def monitors(self, program):
        return [LockModel({"prompt"})]


PROP = C04()
