"""C18: faces of solids and the boundary elements made of them."""
import sys
from vlib import engine, inproc


class C18(inproc.InProc):
    prop = "C18"
    harness = "faces"
    longest = 260
    rule = ("Every case counts: one to four solids (eight types) of random shape and numbering; all their faces, every way to name a face by two nodes, and up to five boundary "
            "elements are compared with a description of each shape by its corners and edges.")
    assumptions = ("the triangular faces of a pyramid are not looked up by nodes: the cards do not define how one node names one of them",)
    quick_n, thorough_n = 60000, 2000000

    def gen(self, rng):
        n = rng.choice([10, 60, 160, 260])
        return [rng.randrange(1 << 20) for _ in range(n)]


if __name__ == "__main__":
    sys.exit(engine.run(C18()))
