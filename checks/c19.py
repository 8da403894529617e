"""C19: sets of freedoms are sets, matrices and coefficients are what was stored."""
import sys
from vlib import engine, inproc


class C19(inproc.InProc):
    prop = "C19"
    harness = "dof"
    longest = 160
    rule = ("A case counts when it combines a set of several freedoms with a non-empty one, stores a non-zero term out of the diagonal of a matrix, or adds coefficients; "
            "every case compares each answer of the real class with a bit mask, a 6x6 array or an array of optional values.")
    assumptions = ("storing a component twice keeps the last value: that is what the class does and what its callers rely on",)
    quick_n, thorough_n = 60000, 2000000


if __name__ == "__main__":
    sys.exit(engine.run(C19()))
