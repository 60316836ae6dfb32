"""C02: a held lock survives unrelated activity."""
import errno as E

from ..engine import Prop
from ..gens import LockGen
from ..lockmodel import LockModel

FAULTS = {
    "open": [(E.EMFILE, 0.03), (E.EINTR, 0.01)], "close": [(E.EIO, 0.04)], "setfd": [(E.EIO, 0.04)],
    "lseek": [(E.EIO, 0.02)], "fstat": [(E.EIO, 0.02)], "lockf": [(E.ENOLCK, 0.05), (E.EDEADLK, 0.05)],
    "unlockf": [(E.ENOLCK, 0.03)], "write": [(E.ENOSPC, 0.03)], "ftruncate": [(E.EIO, 0.05)],
}


class C02(Prop):
    id = "C02"
    quick = 10000
    thorough = 250000
    rule = ("Tasks in 1-3 processes hold locks while other streams on the same file are opened (successfully or not), "
            "locked, refused, timed out, interrupted, unlocked, closed, collected, with injected kernel errors; after "
            "every kernel lock, unlock and close the kernel must still enforce every lock a caller holds.")

    def gen(self, rng):
        f = FAULTS if rng.random() < 0.5 else None
        g = LockGen(rng, faults=f, p_misc=0.7, intr=0.1, p_autolock=0.15, p_block=0.35, p_kill=0.1, min_ops=4, max_ops=11, p_tmp=0.3,
                    nprocs=rng.choice([1, 1, 1, 2, 2]), paths=["a"] if rng.random() < 0.85 else ["a", "b"])
        return g.program()

    def monitors(self, program):
        return [LockModel({"survive"})]


PROP = C02()
