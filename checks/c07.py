"""C07: each analysis carries exactly the supports its deck selects."""
import sys
from vlib import analysis, engine, outputs, wide
from vlib.kin import Kinematics

SUPPORT = ("spcadd", "spcnz", "spcd", "ps", "cd", "loadcomb", "nested", "multi")
MESH = ("solid", "shell", "bar", "rod", "mass", "spring", "force", "moment", "grav")


class C07(Kinematics):
    prop = "C07"
    rule = "A case counts when at least one analysis of its deck holds more than one freedom."
    quick_n, thorough_n = 4000, 80000

    def gen(self, rng):
        target = rng.choice(["ASTER", "SYSTUS", "NASTRAN", "COSMIC"])
        feats = SUPPORT + MESH
        c, b = wide.case(rng, target, feats=feats, sols=(rng.choice([101, 101, 101, 103]),), p=rng.choice([.4, .6, .8]))
        return c


if __name__ == "__main__":
    sys.exit(engine.run(C07()))
