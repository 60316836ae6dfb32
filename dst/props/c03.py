"""C03: releasing a lock is complete and exact."""
import errno as E

from ..engine import Prop
from ..gens import LockGen
from ..lockmodel import LockModel

FAULTS = {
    "open": [(E.EMFILE, 0.03)], "close": [(E.EIO, 0.04)], "lockf": [(E.ENOLCK, 0.05), (E.EDEADLK, 0.05), (E.EINTR, 0.02)],
    "unlockf": [(E.ENOLCK, 0.03)], "write": [(E.ENOSPC, 0.04), (E.EIO, 0.02)], "ftruncate": [(E.EIO, 0.05)],
    "setfd": [(E.EIO, 0.03)],
}


class C03(Prop):
    id = "C03"
    quick = 10000
    thorough = 250000
    rule = ("Locks are released by unlock, by with-blocks left normally or through exceptions, by close and collection, "
            "by failing closes, by interrupts and timeouts, by killed and exiting processes; after every call the "
            "kernel locks of the process must be exactly those its streams own, an attempt without any rival must "
            "succeed, and once everything is over every file must be lockable in every process.")

    def gen(self, rng):
        f = FAULTS if rng.random() < 0.5 else None
        g = LockGen(rng, faults=f, intr=0.12, p_with=0.5, p_raise=0.45, p_kill=0.25, p_exit=0.1, probe=True, p_misc=0.3, p_tmp=0.15,
                    p_block=0.5)
        return g.program()

    def monitors(self, program):
        return [LockModel({"exact", "free"})]


PROP = C03()
