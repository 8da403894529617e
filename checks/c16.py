"""C16: coordinate systems convert exactly, rigidly, and with the directions of the point."""
import sys
from vlib import engine, inproc


class C16(inproc.InProc):
    prop = "C16"
    harness = "cs"
    longest = 120
    rule = ("A case counts when it converts at least one position or vector through a system that is not the global one: every system is drawn from three non-collinear points "
            "(origin and two directions, or three nodes), possibly inside another one.")
    assumptions = ("systems are defined inside Cartesian ones or the global frame: the others are the known finding C03-cord2-in-cylindrical",
                   "vectors in spherical systems are refused by the code, loudly, and are not generated")
    quick_n, thorough_n = 60000, 2000000


if __name__ == "__main__":
    sys.exit(engine.run(C16()))
