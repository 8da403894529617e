"""C09: every analysis keeps the loads it selects, with their factors and directions."""
import sys
from vlib import engine, wide
from vlib.kin import Kinematics

FEATS = ("solid", "shell", "bar", "mass", "spring", "cd", "spcadd", "multi", "force", "moment", "forcecs", "force1", "force2", "pload", "pload1", "pload2",
         "pload4s", "pload4v", "pload4d", "grav", "rforce", "sload", "loadcomb", "nested", "set3")


class C09(Kinematics):
    prop = "C09"
    what = ("loads",)
    rule = "A case counts when some analysis selects at least two loads (nodal forces, pressures, line loads, gravity, rotation), combinations resolved."
    quick_n, thorough_n = 4000, 80000

    def gen(self, rng):
        target = rng.choice(["ASTER", "SYSTUS", "NASTRAN", "COSMIC"])
        c, b = wide.case(rng, target, feats=FEATS, sols=(101,), p=rng.choice([.4, .6, .8]))
        return c

    def nontrivial(self, case, s, R, rig):
        return any(len(r[3].nodal) + len(r[3].faces) + len(r[3].lines) + len(r[3].rotations) + len(r[3].spoint) + bool(r[3].gravity.any()) > 1 for r in R)


if __name__ == "__main__":
    sys.exit(engine.run(C09()))
