"""C08: multi-point constraints and rigid elements keep their meaning."""
import sys
from vlib import engine, wide
from vlib.kin import Kinematics

FEATS = ("mpc", "rbe2", "rbe3", "rbar", "rbar1", "rigd1", "cd", "spcadd", "spcnz", "multi", "solid", "shell", "bar", "mass", "spring", "force", "moment", "grav")


class C08(Kinematics):
    prop = "C08"
    rule = "A case counts when some analysis has at least one relation between freedoms of different grids: an MPC it selects, or a rigid element of the deck."
    quick_n, thorough_n = 4000, 80000

    def gen(self, rng):
        target = rng.choice(["ASTER", "SYSTUS", "NASTRAN", "COSMIC"])
        c, b = wide.case(rng, target, feats=FEATS, sols=(rng.choice([101, 101, 101, 103]),), p=rng.choice([.4, .6, .8]))
        return c

    def nontrivial(self, case, s, R, rig):
        return bool(rig) or any(r[2] for r in R)


if __name__ == "__main__":
    sys.exit(engine.run(C08()))
