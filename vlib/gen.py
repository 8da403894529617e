"""Generator of Nastran decks. Every value is exactly representable in an 8-character field."""
import math

TOPO_N = {"TRI3": 3, "TRI6": 6, "QUAD4": 4, "QUAD8": 8, "QUAD9": 9, "TETRA4": 4, "TETRA10": 10, "PYRA5": 5, "PYRA13": 13,
          "PENTA6": 6, "PENTA15": 15, "HEXA8": 8, "HEXA20": 20, "SEG2": 2, "POINT1": 1}
SOLIDS = [("CTETRA", "TETRA4"), ("CTETRA", "TETRA10"), ("CPYRA", "PYRA5"), ("CPYRAM", "PYRA13"), ("CPENTA", "PENTA6"),
          ("CPENTA", "PENTA15"), ("CHEXA", "HEXA8"), ("CHEXA", "HEXA20"), ("CIHEX1", "HEXA8"), ("CIHEX2", "HEXA20"),
          ("CPYRA", "PYRA13"), ("CPYRAM", "PYRA5")]
SHELLS = [("CTRIA3", "TRI3"), ("CTRIA6", "TRI6"), ("CQUAD4", "QUAD4"), ("CQUAD8", "QUAD8"), ("CTRIAR", "TRI3"),
          ("CQUADR", "QUAD4")]


def sig(rng, lo, hi, digits=3):
    """A real in [lo, hi] with at most `digits` significant digits."""
    x = rng.uniform(lo, hi)
    return float("%.*g" % (digits, x))


def logsig(rng, lo, hi, digits=3):
    x = math.exp(rng.uniform(math.log(lo), math.log(hi)))
    return float("%.*g" % (digits, x))


class B:
    """One deck under construction. self.rng is the only source of choice."""

    def __init__(self, rng):
        self.rng = rng
        self.cards = []
        self.cc = []
        self.exec = ["SOL 101", "CEND"]
        self.used = {}
        self.style = rng.choice(["dense", "sparse", "mixed"])
        self.nodes = []           # grid ids
        self.spoints = []
        self.xyz = {}             # basic coordinates of grids defined in the basic system
        self.taken = set()
        self.cs = {0: "R"}
        self.mats = []
        self.elem = {}            # eid -> (card, topo, nodes, pid)
        self.nodesets = set()
        self.cd_of = {}
        self.tags = set()
        self.dup_pairs = set()
        self.target = None

    # ---------------------------------------------------------------- identifiers
    def id(self, space, hi=None):
        u = self.used.setdefault(space, set())
        while True:
            if self.style == "dense" or (self.style == "mixed" and self.rng.random() < .5):
                v = self.rng.randint(1, max(12, 3 * len(u) + 12))
            else:
                v = self.rng.randint(1, hi or self.rng.choice([99, 9999, 999999, 9999999]))
            if v not in u and (hi is None or v <= hi):
                u.add(v)
                return v

    def add(self, *card):
        self.cards.append(list(card))
        return self.cards[-1]

    # ---------------------------------------------------------------- geometry
    def point(self):
        """distinct points on a 0.25 grid, never the origin"""
        r = self.rng
        while True:
            s = r.choice([2, 2, 6, 20])
            p = (r.randint(-s * 4, s * 4) / 4.0, r.randint(-s * 4, s * 4) / 4.0, r.randint(-s * 4, s * 4) / 4.0)
            if p not in self.taken and p != (0., 0., 0.):
                self.taken.add(p)
                return p

    def grid(self, cp=None, cd=None, ps=None):
        i = self.id("grid")
        x, y, z = self.point()
        self.add("GRID", i, cp, x, y, z, cd, ps)
        self.nodes.append(i)
        self.xyz[i] = (x, y, z)
        self.cd_of[i] = cd or 0
        return i

    def grids(self, n):
        return [self.grid() for _ in range(n)]

    def pick_nodes(self, k, distinct_from=None):
        """k distinct grids; new ones are created when the pool is too small or by chance; no two elements on one node set"""
        r = self.rng
        for _ in range(50):
            while len(self.nodes) < k:
                self.grid()
            pool = list(self.nodes)
            ns = r.sample(pool, k)
            if r.random() < .3:
                ns[r.randrange(k)] = self.grid()
            fs = frozenset(ns)
            if len(fs) == k and fs not in self.nodesets:
                self.nodesets.add(fs)
                return ns
        ns = self.grids(k)
        self.nodesets.add(frozenset(ns))
        return ns

    # ---------------------------------------------------------------- materials and properties
    def mat1(self, mid=None, rho=True):
        r = self.rng
        mid = mid or self.id("mat")
        e = logsig(r, 1e3, 5e11)
        nu = sig(r, 0.01, 0.45)
        g = None
        form = r.choice(["E_nu", "E_nu", "E_G", "G_nu", "E_G_nu"])
        if form == "E_G":
            g, nu = float("%.3g" % (e / 2.6)), None
        elif form == "G_nu":
            g, e = float("%.3g" % (e / 2.6)), None
        elif form == "E_G_nu":
            g = float("%.3g" % (e / (2 * (1 + nu))))
        rh = logsig(r, 1e-9, 1e4) if rho and r.random() < .8 else None
        a = logsig(r, 1e-6, 1e-4) if r.random() < .3 else None
        tref = sig(r, 1, 300) if r.random() < .2 else None
        ge = sig(r, .001, .1) if r.random() < .3 else None
        self.add("MAT1", mid, e, g, nu, rh, a, tref, ge)
        self.mats.append(mid)
        return mid

    def mat(self):
        if self.mats and self.rng.random() < .6:
            return self.rng.choice(self.mats)
        return self.mat1()

    def pshell(self):
        r = self.rng
        pid = self.id("prop")
        m = self.mat()
        self.add("PSHELL", pid, m, logsig(r, .001, 50), r.choice([None, m]), None, r.choice([None, m]), None,
                 logsig(r, .01, 10) if r.random() < .2 else None)
        return pid

    def mat8(self):
        r = self.rng
        mid = self.id("mat")
        e1 = logsig(r, 1e6, 1e11)
        self.add("MAT8", mid, e1, logsig(r, 1e5, 1e11), sig(r, .05, .4), logsig(r, 1e5, 1e10),
                 logsig(r, 1e5, 1e10) if r.random() < .7 else None, logsig(r, 1e5, 1e10) if r.random() < .7 else None,
                 logsig(r, 1e-9, 1e4) if r.random() < .7 else None)
        return mid

    def pcomp(self):
        r = self.rng
        pid = self.id("prop")
        c = ["PCOMP", pid, sig(r, -3, 3) if r.random() < .4 else None, None, None, None, None, None, None]
        ms = [self.mat8() if r.random() < .6 else self.mat() for _ in range(r.randint(1, 2))]
        for k in range(r.randint(1, 5)):
            c += [r.choice(ms), logsig(r, .01, 5), r.choice([0., 45., 90., -45., 30.]), None]
        self.cards.append(c)
        return pid

    def psolid(self):
        pid = self.id("prop")
        r = self.rng
        if r.random() < .7:
            self.add("PSOLID", pid, self.mat())
        else:
            self.add("PSOLID", pid, self.mat(), None, r.choice(["TWO", "THREE"]), None, "FULL")
        return pid

    def pbar(self):
        r = self.rng
        pid = self.id("prop")
        c = ["PBAR", pid, self.mat(), logsig(r, .01, 100), logsig(r, .01, 1e4), logsig(r, .01, 1e4), logsig(r, .01, 1e4),
             logsig(r, .01, 10) if r.random() < .2 else None]
        if r.random() < .3:
            c += [None] + [None] * 8 + [sig(r, .2, 1.), sig(r, .2, 1.)]
        self.cards.append(c)
        return pid

    def pbarl(self, card=None):
        r = self.rng
        pid = self.id("prop")
        card = card or r.choice(["PBARL", "PBEAML"])
        t = r.choice(["BAR", "ROD", "TUBE", "I"] if self.target != "SYSTUS" else ["BAR", "ROD", "I"])
        c = [card, pid, self.mat(), None, t, None, None, None, None]
        if t == "BAR":
            c += [logsig(r, .1, 50), logsig(r, .1, 50)]
        elif t == "ROD":
            c += [logsig(r, .1, 50)]
        elif t == "TUBE":
            o = logsig(r, 1, 50)
            c += [o, float("%.3g" % (o * r.choice([.5, .8, .25])))]
        else:
            h = sig(r, 8, 60)
            w, tf = sig(r, 4, 30), sig(r, .2, 2)      # unequal flanges are refused by VEGA
            c += [h, w, w, sig(r, .2, 2), tf, tf]
        self.cards.append(c)
        return pid

    def pbeam(self):
        r = self.rng
        pid = self.id("prop")
        self.add("PBEAM", pid, self.mat(), logsig(r, .01, 100), logsig(r, .01, 1e4), logsig(r, .01, 1e4), None,
                 logsig(r, .01, 1e4))
        return pid

    def prod(self):
        r = self.rng
        pid = self.id("prop")
        self.add("PROD", pid, self.mat(), logsig(r, .01, 100), logsig(r, .01, 100) if r.random() < .5 else None)
        return pid

    def reg(self, eid, card, topo, ns, pid):
        self.elem[eid] = (card, topo, list(ns), pid)
        return eid

    # ---------------------------------------------------------------- elements
    def shell(self, pid=None, kind=None, zoffs=None):
        r = self.rng
        card, topo = kind or r.choice(SHELLS)
        if pid is None:
            pid = self.pshell()
        eid = self.id("elem")
        ns = self.pick_nodes(TOPO_N[topo])
        if zoffs is None and r.random() < .15:
            zoffs = sig(r, -4, 4, 2)
        if topo in ("TRI3", "QUAD4", "TRI6"):
            self.add(card, eid, pid, *ns, None, zoffs)
        else:
            self.add(card, eid, pid, *ns, None, None, None, None, None, zoffs)
        return self.reg(eid, card, topo, ns, pid)

    def solid(self, pid=None, kind=None):
        r = self.rng
        card, topo = kind or r.choice([k for k in SOLIDS if self.target != "SYSTUS" or k[1] != "PYRA13"])
        if pid is None:
            pid = self.psolid()
        eid = self.id("elem")
        ns = self.pick_nodes(TOPO_N[topo])
        self.add(card, eid, pid, *ns)
        return self.reg(eid, card, topo, ns, pid)

    def orientation(self, ns):
        """fields 5..7 of a bar: a vector not parallel to the axis, or a third grid"""
        r = self.rng
        a, b = self.xyz[ns[0]], self.xyz[ns[1]]
        d = [b[i] - a[i] for i in range(3)]

        def cross2(v):
            c = (d[1] * v[2] - d[2] * v[1], d[2] * v[0] - d[0] * v[2], d[0] * v[1] - d[1] * v[0])
            return sum(x * x for x in c) / (sum(x * x for x in d) * sum(x * x for x in v))
        if r.random() < .35:
            for n in r.sample(self.nodes, min(6, len(self.nodes))):
                if n not in ns and n in self.xyz:
                    v = [self.xyz[n][i] - a[i] for i in range(3)]
                    if any(v) and cross2(v) > .01:
                        self.tags.add("orient:G0")
                        return [n, None, None]
        while True:
            v = [float(r.choice([-3, -2, -1, 0, 0, 1, 2, 3, 0.5])) for _ in range(3)]
            if any(v) and cross2(v) > .01:
                self.tags.add("orient:vector")
                return v

    def bar(self, pid=None, card=None):
        r = self.rng
        if pid is None:
            pid, card = r.choice([(self.pbar, "CBAR"), (self.pbarl, None), (self.pbeam, "CBEAM")])
            if card is None:
                c = r.choice(["PBARL", "PBEAML"])
                pid = self.pbarl(c)
                card = "CBAR" if c == "PBARL" else "CBEAM"
            else:
                pid = pid()
        eid = self.id("elem")
        ns = self.pick_nodes(2)
        self.add(card, eid, pid, *ns, *self.orientation(ns))
        return self.reg(eid, card, "SEG2", ns, pid)

    def rod(self, pid=None):
        r = self.rng
        eid = self.id("elem")
        ns = self.pick_nodes(2)
        if pid is None and r.random() < .3:
            self.add("CONROD", eid, *ns, self.mat(), logsig(r, .01, 50), logsig(r, .01, 50) if r.random() < .5 else None)
            return self.reg(eid, "CONROD", "SEG2", ns, None)
        pid = pid or self.prod()
        self.add("CROD", eid, pid, *ns)
        return self.reg(eid, "CROD", "SEG2", ns, pid)

    # ---------------------------------------------------------------- families of elements sharing a property
    def elements(self, n=None, kinds=("shell", "solid", "bar", "rod")):
        r = self.rng
        n = n or r.randint(1, 8)
        made = []
        while len(made) < n:
            k = r.choice(kinds)
            cnt = r.choice([1, 1, 2, 3])
            if k == "shell":
                pid = self.pshell() if r.random() < .75 or self.target != "ASTER" else self.pcomp()
                for _ in range(cnt):
                    made.append(self.shell(pid))
            elif k == "solid":
                pid = self.psolid()
                for _ in range(cnt):
                    made.append(self.solid(pid))
            elif k == "bar":
                f, card = r.choice([(self.pbar, "CBAR"), (lambda: self.pbarl("PBARL"), "CBAR"), (self.pbeam, "CBEAM"),
                                    (lambda: self.pbarl("PBEAML"), "CBEAM")])
                pid = f()
                for _ in range(cnt):
                    made.append(self.bar(pid, card))
            elif k == "rod":
                if r.random() < .4:
                    made.append(self.rod())
                else:
                    pid = self.prod()
                    for _ in range(cnt):
                        made.append(self.rod(pid))
        return made

    # ---------------------------------------------------------------- coordinate systems
    def cord2(self, rid=None, kinds="RCS", cid=None):
        """a CORD2x with an integer/quarter frame; returns its id"""
        r = self.rng
        cid = cid or self.id("cs")
        k = r.choice(kinds)
        rid = rid if rid is not None else 0
        rk = self.cs[rid]
        while True:
            if rk == "R":
                a = [r.randint(-8, 8) / 2.0 for _ in range(3)]
                b = [r.randint(-8, 8) / 2.0 for _ in range(3)]
                c = [r.randint(-8, 8) / 2.0 for _ in range(3)]
            elif rk == "C":
                a, b, c = ([r.randint(1, 12) / 2.0, float(r.choice([0, 30, 45, 90, 135, 180, -60, 200])), r.randint(-8, 8) / 2.0]
                           for _ in range(3))
            else:
                a, b, c = ([r.randint(1, 12) / 2.0, float(r.choice([20, 30, 45, 90, 135, 160])),
                            float(r.choice([0, 30, 45, 90, 180, -60, 200]))] for _ in range(3))
            from . import sem
            loc = sem.CS("R", (0, 0, 0), ((1, 0, 0), (0, 1, 0), (0, 0, 1))) if rk == "R" else \
                sem.CS(rk, (0, 0, 0), ((1, 0, 0), (0, 1, 0), (0, 0, 1)))
            A, Bp, C = (loc.to_cart(p) for p in (a, b, c))
            z = [Bp[i] - A[i] for i in range(3)]
            x = [C[i] - A[i] for i in range(3)]
            cr = (z[1] * x[2] - z[2] * x[1], z[2] * x[0] - z[0] * x[2], z[0] * x[1] - z[1] * x[0])
            nz, nx = sum(t * t for t in z), sum(t * t for t in x)
            if nz > .1 and nx > .1 and sum(t * t for t in cr) / (nz * nx) > .05:
                break
        self.add("CORD2" + k, cid, rid if rid or r.random() < .5 else None, *a, *b, *c)
        self.cs[cid] = k
        return cid

    def deck(self):
        return {"exec": self.exec, "cc": self.cc, "cards": self.cards}
