"""C01: locks exclude each other."""
from ..engine import Prop
from ..gens import LockGen
from ..lockmodel import LockModel


class C01(Prop):
    id = "C01"
    quick = 12000
    thorough = 300000
    rule = ("Tasks in 1-3 processes open 1-2 files in all modes and stream types, and lock, unlock, close and drop "
            "streams on bounded, unbounded, adjacent, nested and far-away ranges.")

    def gen(self, rng):
        return LockGen(rng, p_tmp=0.1).program()

    def monitors(self, program):
        return [LockModel({"excl"})]


PROP = C01()
