"""Properties decided inside the library: a case is a list of choices that a harness (harness/*.cpp) turns into a sequence of operations on the
real classes, next to a reference model. The harness says what differs."""
import json, os, subprocess
from . import build as vbuild, engine


class InProc(engine.Check):
    harness = ""
    variant = "plain"
    longest = 200

    def build(self):
        self.exe = vbuild.build("h_" + self.harness, self.variant)

    def gen(self, rng):
        n = rng.choice([4, 8, 16, 30, 60, 100, self.longest])
        n = min(n, self.longest)
        small = rng.choice([2, 4, 8, 40])
        return [rng.randrange(small) if rng.random() < .3 else rng.randrange(1 << 20) for _ in range(n)]

    _proc = None

    def ask(self, case):
        me = os.getpid()
        p = InProc._proc
        if p is None or p[0] != me or p[1].poll() is not None:
            q = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            p = InProc._proc = (me, q)
        p[1].stdin.write((" ".join(map(str, case)) + "\n").encode())
        p[1].stdin.flush()
        line = p[1].stdout.readline()
        if not line:
            InProc._proc = None
            return {"fails": ["crash: the harness ended"], "tags": [], "nontrivial": True, "text": ""}
        return json.loads(line.decode("latin-1"))

    def judge(self, case):
        r = self.ask(case)
        return engine.Outcome(r["fails"], r["tags"], r["nontrivial"], key=r["text"] or None)

    def text(self, case):
        r = self.ask(case)
        return "%s\nchoices: %s" % (r["text"], " ".join(map(str, case)))

    def shrinks(self, case):
        for c in engine.ddmin_list(case):
            yield c
        for i, v in enumerate(case):
            for w in (0, 1, v // 2, v - 1):
                if 0 <= w < v:
                    yield case[:i] + [w] + case[i + 1:]
