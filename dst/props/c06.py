"""C06: locks are per-handle, exact-range, non-reentrant."""
import errno as E

from ..engine import Prop
from ..gens import LockGen
from ..lockmodel import LockModel

FAULTS = {"lockf": [(E.ENOLCK, 0.04)], "unlockf": [(E.EIO, 0.02)]}


class C06(Prop):
    id = "C06"
    quick = 12000
    thorough = 300000
    rule = ("Mostly single-process histories with many lock and unlock calls per handle, right and wrong (also with arguments of wrong types or values), on nested, "
            "adjacent, far-away and unbounded ranges, handles shared by threads and wrapped twice; every outcome is "
            "compared with a reference model and after every call the kernel's lock table with the model's.")

    def gen(self, rng):
        f = FAULTS if rng.random() < 0.2 else None
        g = LockGen(rng, faults=f, nprocs=rng.choice([1, 1, 1, 2]), ntasks=rng.choice([1, 1, 2, 3]), min_ops=5, max_ops=16,
                    p_wrong_unlock=0.35, illegal=0.2, p_block=0.15, p_autolock=0.1, p_misc=0.1, p_with=0.2, far=0.15,
                    whence=0.2, p_bad=0.25, p_share=0.5, paths=["a"] if rng.random() < 0.8 else ["a", "b"], p_wrap=0.3)
        return g.program()

    def nontrivial(self, w):
        return True

    def monitors(self, program):
        return [LockModel({"reentrant", "exact", "survive", "free"})]


PROP = C06()
