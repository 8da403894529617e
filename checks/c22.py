"""C22: tabulated and dynamic data keep their values."""
import sys
from vlib import engine
from vlib.cases import Cases


class C22(Cases):
    prop = "C22"
    rule = "A case counts when an analysis of the deck selects a table (of excitation or damping) and a list of several frequencies."
    quick_n, thorough_n = 4000, 80000
    sols = {"ASTER": (108, 111, 111), "SYSTUS": (111,)}

    def nontrivial_cases(self, cs):
        return any(len(c.get("freqs") or ()) > 1 for c in cs)


if __name__ == "__main__":
    sys.exit(engine.run(C22()))
