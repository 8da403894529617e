"""C10: analyses and cases are translated one for one."""
import sys
from vlib import engine
from vlib.cases import Cases


class C10(Cases):
    prop = "C10"
    rule = "A case counts when its deck has at least two analyses that do not select the same sets."
    quick_n, thorough_n = 4000, 80000


if __name__ == "__main__":
    sys.exit(engine.run(C10()))
