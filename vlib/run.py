"""Runs vegapp on a deck inside a private scratch directory."""
import os, shutil, signal, subprocess, tempfile, resource

SCRATCH_ROOT = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"

SUCCESS, GENERIC, PARSING, WRITING, NO_INPUT, BAD_CMD, VALIDATION, INCOMPLETE = 0, 1, 2, 3, 4, 5, 6, 7


class Out:
    __slots__ = ("rc", "files", "log", "indir_changed", "timeout")

    def __init__(self, rc, files, log, indir_changed, timeout):
        self.rc, self.files, self.log, self.indir_changed, self.timeout = rc, files, log, indir_changed, timeout

    def find(self, suffix):
        for k in sorted(self.files):
            if k.endswith(suffix):
                return self.files[k]
        return None


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vegachk_", dir=SCRATCH_ROOT)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def snapshot(d):
    r = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            with open(p, "rb") as h:
                r[os.path.relpath(p, d)] = h.read()
    return r


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    os.setsid()


def exec_vega(binary, args, cwd, timeout=20, env=None, limits=True):
    e = {"PATH": "/usr/bin:/bin", "HOME": cwd, "LC_ALL": "C.UTF-8"}
    if env:
        e.update(env)
    p = subprocess.Popen([binary] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, env=e, preexec_fn=_limits if limits else os.setsid)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return -9, out.decode("utf-8", "replace"), True


def translate(binary, text, target, mode="-s", opts=(), name="d.nas", source="NASTRAN", extra_files=None, timeout=20,
              env=None, limits=True):
    """Translates text; returns Out. target in ASTER/SYSTUS/NASTRAN."""
    with Scratch() as d:
        ind, outd = os.path.join(d, "in"), os.path.join(d, "out")
        os.mkdir(ind)
        os.mkdir(outd)
        with open(os.path.join(ind, name), "wb") as h:
            h.write(text if isinstance(text, bytes) else text.encode("latin-1"))
        for k, v in (extra_files or {}).items():
            os.makedirs(os.path.dirname(os.path.join(ind, k)), exist_ok=True)
            with open(os.path.join(ind, k), "wb") as h:
                h.write(v if isinstance(v, bytes) else v.encode())
        before = snapshot(ind)
        args = ["-o", outd] + ([mode] if mode else []) + list(opts) + [os.path.join(ind, name), source, target]
        rc, log, to = exec_vega(binary, args, d, timeout, env, limits)
        files = snapshot(outd)
        changed = snapshot(ind) != before or sorted(x for x in os.listdir(d) if x not in ("in", "out")) != []
        return Out(rc, files, log.replace(d, "@"), changed, to)
