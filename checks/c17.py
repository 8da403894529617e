"""C17: the mesh and its groups against maps and sets, over histories of operations."""
import sys
from vlib import engine, inproc


class C17(inproc.InProc):
    prop = "C17"
    harness = "mesh"
    longest = 260
    rule = ("A case counts when its history has more than three operations, two cells or more, and a group or a container; after the history, and at random points of it, "
            "every look-up, iteration, count, group and container of the real mesh is compared with maps and sets.")
    assumptions = ("an id is given to one cell only, and a cell does not repeat a node: the readers check both",
                   "an updated cell leaves its old data behind, as the header says: iteration over the old type is not checked after an update",
                   "a container refers to a group by name: a renamed group is not one a container refers to")
    def gen(self, rng):
        n = rng.choice([20, 60, 100, 160, 260])
        small = rng.choice([2, 4, 8, 40])
        return [rng.randrange(small) if rng.random() < .2 else rng.randrange(1 << 20) for _ in range(n)]

    quick_n, thorough_n = 80000, 3000000


if __name__ == "__main__":
    sys.exit(engine.run(C17()))
