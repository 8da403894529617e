"""Builds vegapp (and in-process harnesses) from /repo's current working tree."""
import fcntl, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VEGA_REPO", "/repo")
MK = os.path.join(VERIF, "build.d", "Makefile")


def _make(target, bld, args):
    cmd = ["make", "-s", "-j", str(os.cpu_count() or 4), "-f", MK, "REPO=" + REPO, "BLD=" + bld] + args + [target]
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(target="vegapp", variant="plain"):
    """Returns the path of the built target. Raises RuntimeError when the tree does not compile."""
    root = os.environ.get("VEGA_BLD", os.path.join(VERIF, ".build"))
    bld = os.path.join(root, variant)
    os.makedirs(bld, exist_ok=True)
    args = []
    if variant == "asan":
        args = ["OPT=-O1", "EXTRA=-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -gline-tables-only -D_GLIBCXX_ASSERTIONS"]
    t0 = time.time()
    with open(os.path.join(root, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = _make(os.path.join(bld, target), bld, args)
        if r.returncode != 0:
            # one retry: a killed compiler (memory) or a half-written object
            r = _make(os.path.join(bld, target), bld, args)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:])
        raise RuntimeError("build failed")
    sys.stderr.write("[build] %s/%s %.1fs\n" % (variant, target, time.time() - t0))
    return os.path.join(bld, target)
