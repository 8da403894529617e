"""recfix.py PROP 'part of the commit title' 'what failed' : records a fix commit of /repo"""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkfinding
prop, part, what = sys.argv[1:4]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).split("\n")
hs = [l.split()[0] for l in log if part in l and "fix:" in l]
assert hs, hs
mkfinding.fixed(prop, ",".join(hs), what)
