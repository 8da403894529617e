"""Whole analysis models: proper meshes, supports, multipoint and rigid constraints, loads and cases."""
import itertools
import numpy as np
from .gen import B, TOPO_N, logsig, sig
from .sem import EDGES_NAS
from .topo import REF

SUB = {   # decomposition of the unit brick, corners numbered as in REF["HEXA"], 8 = centre
    "HEXA": [("HEXA", (0, 1, 2, 3, 4, 5, 6, 7))],
    "PENTA": [("PENTA", (0, 1, 2, 4, 5, 6)), ("PENTA", (0, 2, 3, 4, 6, 7))],
    "TETRA": [("TETRA", t) for t in ((0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6))],
    "PYRA": [("PYRA", t) for t in ((0, 1, 2, 3, 8), (4, 7, 6, 5, 8), (0, 4, 5, 1, 8), (1, 5, 6, 2, 8), (2, 6, 7, 3, 8), (3, 7, 4, 0, 8))],
}
SECOND = {"HEXA": "HEXA20", "PENTA": "PENTA15", "TETRA": "TETRA10", "PYRA": "PYRA13"}
FIRST = {"HEXA": "HEXA8", "PENTA": "PENTA6", "TETRA": "TETRA4", "PYRA": "PYRA5"}
FACES = {   # corner positions, ordered so that the normal points out of the element
    "HEXA": [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)],
    "PENTA": [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)],
    "TETRA": [(0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)],
    "PYRA": [(0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
}
DOFSETS = [123456, 123, 1, 2, 3, 12, 23, 13, 456, 4, 5, 6, 12346, 345, 1246]

ALL = ("solid", "shell", "bar", "rod", "spring", "mass", "cd", "spcadd", "spcnz", "ps", "mpc", "rbe2", "rbe3", "rbar", "rbar1", "rigd1",
       "force", "moment", "forcecs", "force1", "force2", "pload", "pload1", "pload2", "pload4s", "pload4v", "pload4d", "grav", "rforce", "spcd",
       "sload", "temp", "loadcomb", "nested", "set3", "multi", "pcomp")


# what the writer of a target refuses by design (documented "not implemented" messages)
DROP = {"ASTER": {"temp"}, "SYSTUS": {"temp", "rforce", "pcomp"},
        "NASTRAN": {"temp", "rforce", "spring", "pcomp", "pload4d"}}
DROP["COSMIC"] = DROP["NASTRAN"]


class W(B):
    def __init__(self, rng, target, feats=ALL, sols=(101,), p=.5):
        super().__init__(rng)
        self.target = target
        feats = [f for f in feats if f not in DROP[target]]
        self.rigids = set()
        self.enforced, self.held = {}, set()       # nodes with an enforced displacement, and all other supported nodes
        # swarm: each deck enables a random subset of the features
        self.feats = {f for f in feats if rng.random() < p}
        self.sols = sols
        self.at = {}                      # coordinates -> grid
        self.solids, self.shells, self.bars, self.lumped = [], [], [], []
        self.spcs, self.mpcs, self.loads, self.spcadds = [], [], [], []
        self.base, self.pairs = None, set()        # support set of the freedoms that SPCD cards move

    def on(self, f):
        return f in self.feats

    # ------------------------------------------------------------ lattice geometry
    def frame(self):
        """integer affine map with positive determinant, scale 4 so that mid-edge points stay exact"""
        r = self.rng
        m = np.diag([r.choice([4, 4, 8]) for _ in range(3)]).astype(float)
        for i, j in ((0, 1), (0, 2), (1, 2)):
            if r.random() < .4:
                m[i, j] = r.choice([-4, 4, 2])
        perm = r.choice([(0, 1, 2), (1, 2, 0), (2, 0, 1)])
        m = m[list(perm)]
        s = r.choice([(1, 1, 1), (-1, -1, 1), (1, -1, -1)])
        m = np.diag(s) @ m
        o = np.array([float(r.randint(-12, 12)) * 8 + 1 for _ in range(3)])
        return lambda p: tuple(float(x) for x in (m @ np.array(p, float) + o))

    def gridat(self, xyz):
        if xyz in self.at:
            return self.at[xyz]
        i = self.id("grid")
        r = self.rng
        cd = None
        if self.on("cd") and r.random() < .35:
            cd = self.localcs(xyz)
        ps = r.choice(DOFSETS) if self.on("ps") and r.random() < .12 else None
        if ps:
            self.held.add(i)
        self.add("GRID", i, None if r.random() < .7 else 0, *xyz, cd, ps)
        self.nodes.append(i)
        self.xyz[i] = xyz
        self.cd_of[i] = cd or 0
        self.at[xyz] = i
        self.taken.add(xyz)
        return i

    def grid(self, *a, **k):
        return self.gridat(self.point())

    def localcs(self, xyz):
        from .sem import Sem
        r = self.rng
        if not getattr(self, "_lcs", None):
            self._lcs = [self.cord2(0, "R"), self.cord2(0, r.choice("RC"))]
        for cid in r.sample(self._lcs, len(self._lcs)):
            if not Sem({"cards": [c for c in self.cards if c[0].startswith("CORD2")]}).cs[cid].singular_at(xyz):
                return cid
        return None

    def frames_at(self):
        from .sem import Sem
        return Sem({"cards": [c for c in self.cards if c[0].startswith("CORD2")]}).cs

    def block_solid(self):
        r = self.rng
        fam = r.choice(["HEXA", "HEXA", "PENTA", "TETRA", "PYRA"])
        second = r.random() < .4
        if fam == "PYRA" and self.target == "SYSTUS":
            second = False
        f = self.frame()
        nx, ny = r.choice([(1, 1), (2, 1), (1, 1), (2, 2)]) if not second else r.choice([(1, 1), (2, 1)])
        pid = self.psolid()
        card = {"HEXA": r.choice(["CHEXA", "CHEXA", "CIHEX2" if second else "CIHEX1"]), "PENTA": "CPENTA", "TETRA": "CTETRA",
                "PYRA": r.choice(["CPYRA", "CPYRAM"])}[fam]
        ref = REF["HEXA"] + [(.5, .5, .5)]
        done = 0
        for i, j in itertools.product(range(nx), range(ny)):
            for sub, corners in SUB[fam]:
                if len(SUB[fam]) > 2 and r.random() < .5 and done:
                    continue            # (every property has an element: an unused material is reported as not written)
                done += 1
                pts = [tuple(a + b for a, b in zip(ref[c], (i, j, 0))) for c in corners]
                if second:
                    t = SECOND[fam]
                    pts += [tuple((a + b) / 2 for a, b in zip(pts[e[0]], pts[e[1]])) for _, e in sorted(EDGES_NAS[t].items())]
                else:
                    t = FIRST[fam]
                ns = [self.gridat(f(p)) for p in pts]
                self.nodesets.add(frozenset(ns))
                eid = self.id("elem")
                self.add(card, eid, pid, *ns)
                self.reg(eid, card, t, ns, pid)
                self.solids.append(eid)

    def block_shell(self):
        r = self.rng
        f = self.frame()
        kind = r.choice(["QUAD4", "QUAD4", "TRI3", "TRI6", "QUAD8"])
        pid = self.pcomp() if self.on("pcomp") and self.target == "ASTER" and r.random() < .3 else self.pshell()
        nx, ny = r.choice([(1, 1), (2, 1), (2, 2), (3, 1)])
        run = r.random() < .3
        skew = {}

        def moved(a, b):
            # general quadrilaterals: convex whatever the moves of the corners are
            if (a, b) not in skew:
                skew[a, b] = (a + r.choice([0, 0, .25]), b + r.choice([0, 0, .25]), 0)
            return skew[a, b]
        for i, j in itertools.product(range(nx), range(ny)):
            q = [moved(i, j), moved(i + 1, j), moved(i + 1, j + 1), moved(i, j + 1)]
            for c in ([q] if kind.startswith("QUAD") else [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]):
                if r.random() < .3:
                    c = [c[0]] + c[:0:-1]
                k = r.randrange(len(c))
                c = c[k:] + c[:k]
                pts = list(c)
                if kind in ("TRI6", "QUAD8"):
                    pts += [tuple((a + b) / 2 for a, b in zip(c[m], c[(m + 1) % len(c)])) for m in range(len(c))]
                ns = [self.gridat(f(p)) for p in pts]
                self.nodesets.add(frozenset(ns))
                card = {"TRI3": r.choice(["CTRIA3", "CTRIAR"]), "TRI6": "CTRIA6", "QUAD4": r.choice(["CQUAD4", "CQUADR"]), "QUAD8": "CQUAD8"}[kind]
                eid = self.id("elem")
                if run and self.shells and self.shells[-1] + 1 not in self.used["elem"]:
                    self.used["elem"].discard(eid)
                    eid = self.shells[-1] + 1
                    self.used["elem"].add(eid)
                self.add(card, eid, pid, *ns)
                self.reg(eid, card, kind, ns, pid)
                self.shells.append(eid)

    def block_bar(self):
        r = self.rng
        pid, card = r.choice([(self.pbar, "CBAR"), (self.pbeam, "CBEAM"), (lambda: self.pbarl("PBARL"), "CBAR"), (lambda: self.pbarl("PBEAML"), "CBEAM")])
        pid = pid()
        for _ in range(r.choice([1, 1, 2, 3])):
            self.bars.append(self.bar(pid, card))

    def block_rod(self):
        for _ in range(self.rng.choice([1, 2])):
            self.rod()

    # ------------------------------------------------------------ lumped elements
    def spring(self):
        r = self.rng
        kinds = ["CELAS1", "CELAS2", "CELAS2", "CBUSH", "CELAS4"]
        if self.target == "SYSTUS":
            kinds = ["CELAS1", "CELAS2", "CBUSH"]
        k = r.choice(kinds)
        eid = self.id("elem")
        a, b = self.pick_nodes(2)
        c1, c2 = r.randint(1, 6), r.randint(1, 6)
        if r.random() < .7:
            c2 = c1
        val = logsig(r, 1, 1e8)
        if k == "CELAS1":
            pid = self.id("prop")
            self.add("PELAS", pid, val)
            self.add(k, eid, pid, a, c1, b, c2)
        elif k == "CELAS2":
            self.add(k, eid, val, a, c1, b, c2)
        elif k == "CELAS4":
            s1, s2 = self.spoint(), self.spoint()
            self.add(k, eid, val, s1, s2)
        elif k == "CBUSH":
            pid = self.id("prop")
            c = ["PBUSH", pid, "K"] + [logsig(r, 1, 1e8) if r.random() < .7 else None for _ in range(6)]
            if not any(isinstance(v, float) for v in c):
                c[3] = 1e3
            self.add(*c)
            self.add(k, eid, pid, a, b, None, None, None, 0)
        self.lumped.append(eid)

    def spoint(self):
        i = self.id("grid")
        self.add("SPOINT", i)
        self.spoints.append(i)
        return i

    def mass(self):
        r = self.rng
        k = "CONM2"
        eid = self.id("elem")
        n = r.choice(self.nodes)
        if k == "CONM2":
            c = ["CONM2", eid, n, None, logsig(r, .01, 1e4)]
            if r.random() < .5:
                i = [logsig(r, .1, 100) for _ in range(3)]
                c += [None, None, None, None, i[0], 0., i[1], 0., 0., i[2]]
            self.add(*c)
        else:
            self.add("CMASS2", eid, logsig(r, .01, 1e3), n, r.randint(1, 6))
        self.lumped.append(eid)

    # ------------------------------------------------------------ supports
    def spc_set(self):
        r = self.rng
        sid = self.id("spcset")
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            # a node with an enforced displacement appears on one support card only: two different values for a freedom are an error
            free = [n for n in self.nodes if n not in self.enforced]
            if not free:
                free = [self.grid()]
            ns = r.sample(free, min(len(free), r.choice([1, 2, 3, 5])))
            if r.random() < .55:
                self.add("SPC1", sid, r.choice(DOFSETS), *ns)
                self.held.update(ns)
            else:
                c = ["SPC", sid]
                for n in ns[:2]:
                    v = 0.
                    if self.on("spcnz") and r.random() < .5 and n not in self.held:
                        v = sig(r, -5, 5, 2)
                        self.enforced[n] = v
                    else:
                        self.held.add(n)
                    c += [n, r.choice(DOFSETS), v]
                self.add(*c)
        self.spcs.append(sid)
        return sid

    def support(self):
        """id usable after SPC ="""
        r = self.rng
        sid = self.support0()
        if not self.base:
            return sid
        parts = [c for c in self.cards if c[0] == "SPCADD" and c[1] == sid]
        parts = parts[0][2:] if parts else [sid]
        if self.base not in parts:
            sid = self.id("spcset")
            self.add("SPCADD", sid, *(parts + [self.base] if r.random() < .5 else [self.base] + parts))
            self.spcadds.append(sid)
        return sid

    def support0(self):
        r = self.rng
        if self.spcs and r.random() < .4:
            return r.choice(self.spcs + self.spcadds)
        if self.on("spcadd") and r.random() < .5:
            parts = [self.spc_set() for _ in range(r.choice([1, 2, 2, 3]))]
            sid = self.id("spcset")
            self.add("SPCADD", sid, *parts)
            self.spcadds.append(sid)
            return sid
        return self.spc_set()

    def mpc_set(self):
        r = self.rng
        sid = self.id("mpcset")
        for _ in range(r.choice([1, 1, 2])):
            self.mpc(sid)
        return sid

    def mpc(self, sid):
        r = self.rng
        k = r.choice([2, 2, 3, 4, 5])
        pairs = set()
        while len(pairs) < k:
            pairs.add((r.choice(self.nodes), r.randint(1, 6)))
        pairs = list(pairs)
        pairs.sort()
        r.shuffle(pairs)
        c = ["MPC", sid]
        for i, (n, d) in enumerate(pairs):
            if i and i % 2 == 0:
                c += [None, None]
            v = 0.
            while v == 0.:
                v = sig(r, -4, 4, 2)
            c += [n, d, v]
        self.cards.append(c)

    def rigid(self):
        r = self.rng
        kinds = [k for k in ("rbe2", "rbe3", "rbar", "rbar1", "rigd1") if self.on(k)]
        if not kinds:
            return
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(kinds)
            n = r.choice([1, 2, 3, 4])
            # a dependent point belongs to one rigid element and is not the reference of another
            free = [x for x in self.nodes if x not in self.rigids]
            while len(free) < n + 1:
                free.append(self.grid())
            m, *ss = r.sample(free, n + 1)
            self.rigids.update([m] + ss)
            eid = self.id("elem")
            if k == "rbe2":
                self.add("RBE2", eid, m, 123456 if self.target == "SYSTUS" else r.choice([123456, 123456, 123, 12, 3, 1235, 456]), *ss)   # partial ones are announced as unsupported by Systus
            elif k == "rbe3":
                c = ["RBE3", eid, None, m, r.choice([123, 123456] if self.target == "ASTER" and self.cd_of[m] else [123, 123456, 12, 3])]     # known finding C08-rbe3-local
                for part in ([ss] if len(ss) < 2 or r.random() < .6 else [ss[:1], ss[1:]]):
                    c += [float(r.choice([1, 1, 2, .5])), r.choice([123, 123456])] + part
                self.add(*c)
            elif k == "rbar":
                self.add("RBAR", eid, m, ss[0], r.choice([123456, 123456, None]), None, None, None)
            elif k == "rbar1":
                self.add("RBAR1", eid, m, ss[0], 123456 if self.target == "SYSTUS" else r.choice([123456, 123]))
            else:
                self.add("CRIGD1", eid, m, *ss)
            self.tags.add("rigid:" + k)

    # ------------------------------------------------------------ loads
    def vec(self, zero=.3):
        r = self.rng
        while True:
            v = [0. if r.random() < zero else sig(r, -5, 5, 2) for _ in range(3)]
            if any(v):
                return v

    def faces_of(self, eid):
        card, topo, ns, pid = self.elem[eid]
        fam = topo.rstrip("0123456789")
        return [(f, [ns[k] for k in f], fam, ns) for f in FACES[fam]]

    def load_card(self, sid):
        r = self.rng
        opts = [f for f in ("force", "moment", "forcecs", "force1", "force2", "grav", "rforce", "spcd", "sload", "temp") if self.on(f)]
        if self.shells:
            opts += [f for f in ("pload", "pload2", "pload4v") if self.on(f)]
        if self.solids:
            opts += [f for f in ("pload4s", "pload4d") if self.on(f)]
        if self.bars:
            opts += [f for f in ("pload1",) if self.on(f)]
        k = r.choice(opts or ["force"])
        self.tags.add("load:" + k)
        n = r.choice(self.nodes)
        mag = logsig(r, .5, 1e5) * r.choice([1, 1, -1])
        mag = float("%.3g" % mag)
        if k == "force":
            self.add("FORCE", sid, n, r.choice([None, 0]), mag, *self.vec())
        elif k == "forcecs":
            cid = self.localcs(self.xyz[n]) if r.random() < .8 else 0
            self.add(r.choice(["FORCE", "MOMENT"]) if self.on("moment") else "FORCE", sid, n, cid or 0, mag, *self.vec())
        elif k == "moment":
            self.add("MOMENT", sid, n, 0, mag, *self.vec())
        elif k == "force1":
            a, b = self.pair()
            self.add("FORCE1", sid, n, mag, a, b)
        elif k == "force2":
            for _ in range(20):
                a, b = self.pair()
                c, d = self.pair()
                u = np.subtract(self.xyz[b], self.xyz[a])
                v = np.subtract(self.xyz[d], self.xyz[c])
                if np.linalg.norm(np.cross(u, v)) > .1 * np.linalg.norm(u) * np.linalg.norm(v):
                    self.add("FORCE2", sid, n, mag, a, b, c, d)
                    return
            self.add("FORCE", sid, n, 0, mag, 1., 0., 0.)
        elif k == "grav":
            self.add("GRAV", sid, None if r.random() < .5 else 0, sig(r, 1, 10, 3), *self.vec())
        elif k == "rforce":
            self.add("RFORCE", sid, n, 0, sig(r, 1, 50, 2), *r.choice([(0., 0., 1.), (1., 0., 0.), (0., 1., 0.), (0., 0., 2.)]))
            self.tags.add("rforce")
        elif k == "spcd":
            c = ["SPCD", sid]
            for _ in range(r.choice([1, 1, 2])):
                # a freedom moved by the loads is a supported one
                free = [(m, d) for m in self.nodes if m not in self.enforced for d in range(1, 7) if (m, d) not in self.pairs
                        and not (self.target == "ASTER" and self.cd_of[m])]      # known finding C07-spcd-local
                if not free:
                    return self.add("FORCE", sid, n, None, mag, 1., 0., 0.)
                m = r.choice(free)[0]
                fm = [d for a, d in free if a == m]
                ds = sorted(r.sample(fm, min(len(fm), r.choice([1, 1, 2, 3]))))
                self.pairs.update((m, d) for d in ds)
                self.held.add(m)
                code = "".join(map(str, ds))
                self.add("SPC1", self.base, code, m)
                c += [m, code, sig(r, -2, 2, 2)]
            self.add(*c)
        elif k == "sload":
            self.add("SLOAD", sid, self.spoint() if r.random() < .5 or not self.spoints else r.choice(self.spoints), mag)
        elif k == "temp":
            self.add("TEMP", sid, n, sig(r, 1, 100))
        elif k == "pload":
            e = r.choice(self.shells)
            ns = self.elem[e][2][:3 if self.elem[e][1].startswith("TRI") else 4]
            self.add("PLOAD", sid, mag, *ns)
        elif k == "pload2":
            self.add("PLOAD2", sid, mag, *r.sample(self.shells, min(len(self.shells), r.choice([1, 1, 2, 3]))))
        elif k == "pload4v":
            e = r.choice(self.shells)
            c = ["PLOAD4", sid, e, mag, None, None, None]
            e2 = e
            while e2 + 1 in self.elem and self.elem[e2 + 1][1][:3] in ("TRI", "QUA"):
                e2 += 1
            if e2 != e and r.random() < .7:
                c += ["THRU", e2]
            elif r.random() < .4 and self.target in ("ASTER", "SYSTUS"):
                c += [None, None, None] + self.vec()
            self.add(*c)
        elif k in ("pload4s", "pload4d"):
            e = r.choice(self.solids)
            f, cs, fam, ns = r.choice([x for x in self.faces_of(e) if not (x[2] == "PYRA" and len(x[0]) == 3)])
            g1, g3 = self.face_nodes(f, cs, fam, ns)
            c = ["PLOAD4", sid, e, mag, None, None, None, g1, g3]
            if k == "pload4d":
                c += [None] + self.vec()
            self.add(*c)
        elif k == "pload1":
            bars = [e for e in self.bars if self.target != "ASTER" or len({self.xyz[n][0] for n in self.elem[e][2]}) == 2]
            if not bars:
                return self.add("FORCE", sid, n, 0, mag, 1., 0., 0.)
            e = r.choice(bars)
            self.add("PLOAD1", sid, e, r.choice(["FX", "FY", "FZ"]), "FR", 0., mag, 1., mag)

    def face_nodes(self, f, cs, fam, ns):
        r = self.rng
        if fam == "TETRA":
            return r.choice(cs), [ns[k] for k in range(4) if ns[k] not in cs][0]
        if len(f) == 3:
            return r.choice(cs), None
        k = r.randrange(4)
        return cs[k], cs[(k + 2) % 4]

    def pair(self):
        r = self.rng
        while len(self.nodes) < 2:
            self.grid()
        return r.sample(self.nodes, 2)

    def load_set(self):
        r = self.rng
        sid = self.id("loadset")
        for _ in range(r.choice([1, 2, 3, 5])):
            self.load_card(sid)
        self.loads.append(sid)
        return sid

    def load(self, depth=0):
        r = self.rng
        if self.loads and r.random() < .3:
            return r.choice(self.loads)
        if self.on("loadcomb") and r.random() < (.6 if depth == 0 else .3):
            parts = []
            for _ in range(r.choice([1, 2, 2, 3])):
                s = self.load(depth + 1) if self.on("nested") and depth < 2 else self.load_set()
                if s not in parts:
                    parts.append(s)
            sid = self.id("loadset")
            neg = not self.on("rforce")        # a rotation has no opposite
            c = ["LOAD", sid, float(r.choice([1, 1, 2, .5, -1.5 if neg else 1.5]))]
            for s in parts:
                c += [float(r.choice([1, 2, -1 if neg else 4, .25, 3])), s]
            self.add(*c)
            if depth:
                self.loads.append(sid)
            return sid
        return self.load_set()

    # ------------------------------------------------------------ the whole model
    def sets(self):
        r = self.rng
        for _ in range(r.choice([1, 2])):
            k = r.choice(["GRID", "ELEM"])
            pool = self.nodes if k == "GRID" else [e for e in self.elem]
            if pool:
                self.add("SET3", self.id("set"), k, *r.sample(pool, min(len(pool), r.randint(1, 6))))

    def mesh(self):
        r = self.rng
        kinds = [k for k in ("solid", "shell", "bar", "rod") if self.on(k)] or [r.choice(["solid", "shell", "bar"])]
        for _ in range(r.choice([1, 2, 2, 3])):
            getattr(self, "block_" + r.choice(kinds))()
        if not self.elem:
            self.block_bar()
        if self.on("spring"):
            for _ in range(r.choice([1, 2])):
                self.spring()
        if self.on("mass"):
            for _ in range(r.choice([1, 2])):
                self.mass()
        self.rigid()
        if self.on("set3"):
            self.sets()

    def build(self):
        r = self.rng
        self.mesh()
        sol = r.choice(self.sols)
        self.sol = sol
        self.exec = ["SOL %s" % sol, "CEND"]
        getattr(self, "case_%s" % sol)()
        self.tags.add("sol:%s" % sol)
        if r.random() < .6:
            r.shuffle(self.cards)
        return self

    def title(self):
        r = self.rng
        if r.random() < .4:
            self.cc.append("TITLE = %s" % r.choice(["model", "A title with words", "x 12"]))

    def assign(self, k, v):
        return self.rng.choice(["%s = %s", "%s=%s", "  %s = %s"]) % (k, v)

    def case_101(self):
        r = self.rng
        self.title()
        n = r.choice([1, 1, 2, 3]) if self.on("multi") else 1
        glob = {}
        if self.on("spcd"):
            self.base = self.id("spcset")
            m = r.choice(self.nodes)
            self.held.add(m)
            self.add("SPC1", self.base, r.choice(DOFSETS), m)
        if r.random() < .6:
            glob["SPC"] = self.support()
            self.globspc = glob["SPC"]
        if self.on("mpc") and r.random() < .5:
            glob["MPC"] = self.mpc_set()
        if n > 1 and r.random() < .3 or n == 1 and r.random() < .3:
            glob["LOAD"] = self.load()
        self.cc += [self.assign(k, v) for k, v in r.sample(sorted(glob.items()), len(glob))]
        explicit = n > 1 or r.random() < .5
        ids = sorted(r.sample(range(1, 40), n)) if r.random() < .5 else list(range(1, n + 1))
        if not explicit:
            have = dict(glob)
            if "SPC" not in have:
                self.cc.append(self.assign("SPC", self.support()))
            if "LOAD" not in have:
                self.cc.append(self.assign("LOAD", self.load()))
            return
        for i in ids:
            self.cc.append("SUBCASE %d" % i)
            if r.random() < .3:
                self.cc.append("  LABEL = CASE%d" % i)
            loc = {}
            if "SPC" not in glob or r.random() < .3:
                loc["SPC"] = self.support()
            if "LOAD" not in glob or r.random() < .5:
                loc["LOAD"] = self.load()
            if self.on("mpc") and r.random() < .3:
                loc["MPC"] = self.mpc_set()
            self.cc += ["  " + self.assign(k, v).strip() for k, v in r.sample(sorted(loc.items()), len(loc))]

    def eigrl(self):
        r = self.rng
        sid = self.id("method")
        v1, v2, nd = (0., sig(r, 10, 1000), None) if r.random() < .4 else (sig(r, 0, 5) if r.random() < .5 else None, None, r.randint(1, 20))
        if r.random() < .2:
            v1, v2, nd = 1., sig(r, 10, 1000), r.randint(1, 20)
        self.add("EIGRL", sid, v1, v2, nd, None, None, None, r.choice([None, "MASS", "MAX"]))
        return sid

    def case_103(self):
        r = self.rng
        self.title()
        glob = {"METHOD": self.eigrl()}
        if r.random() < .8:
            glob["SPC"] = self.support()
        n = r.choice([1, 1, 2])
        if n == 1 and r.random() < .5:
            self.cc += [self.assign(k, v) for k, v in sorted(glob.items())]
            return
        self.cc += [self.assign(k, v) for k, v in sorted(glob.items())]
        for i in range(1, n + 1):
            self.cc.append("SUBCASE %d" % i)
            if r.random() < .5:
                self.cc.append(self.assign("METHOD", self.eigrl()))
            elif r.random() < .5:
                self.cc.append(self.assign("SPC", self.support()))
            else:
                self.cc.append("  LABEL = MODES%d" % i)

    def freq(self):
        r = self.rng
        sid = self.id("freq")
        k = r.choice(["FREQ", "FREQ1", "FREQ1"])
        if k == "FREQ":
            self.add("FREQ", sid, *sorted({sig(r, 1, 500) for _ in range(r.randint(1, 6))}))
        else:
            self.add("FREQ1", sid, sig(r, 1, 20, 2), sig(r, .5, 10, 2), r.randint(1, 20))
        return sid

    def table(self):
        r = self.rng
        tid = self.id("table")
        c = ["TABLED1", tid, None, None, None, None, None, None, None]
        x = 0.
        for _ in range(r.randint(2, 5)):
            c += [float("%.4g" % x), sig(r, .5, 5, 2)]
            x += sig(r, 1, 100, 2)
        self.add(*c, "ENDT")
        return tid

    def dload(self):
        r = self.rng
        sid = self.id("loadset")
        darea = self.id("loadset")
        for n in r.sample(self.nodes, min(len(self.nodes), r.choice([1, 2]))):
            self.add("DAREA", darea, n, r.randint(1, 3), sig(r, .5, 50, 2))
        self.add("RLOAD2", sid, darea, None, None, self.table())
        return sid

    def case_108(self):
        r = self.rng
        self.title()
        self.cc += [self.assign("SPC", self.support()), self.assign("FREQ", self.freq()), self.assign("DLOAD", self.dload())]

    def case_111(self):
        r = self.rng
        self.title()
        tid = self.id("table")
        c = ["TABDMP1", tid, r.choice(["CRIT", "G"]), None, None, None, None, None, None]
        x = 0.
        for _ in range(r.randint(2, 3)):
            c += [x, sig(r, .01, .1, 2)]
            x += sig(r, 50, 1000, 2)
        self.add(*c, "ENDT")
        self.cc += [self.assign("SPC", self.support()), self.assign("FREQ", self.freq()), self.assign("DLOAD", self.dload()),
                    self.assign("METHOD", self.eigrl()), self.assign("SDAMPING", tid)]


def case(rng, target, feats=ALL, sols=(101,), p=.5):
    b = W(rng, target, feats, sols, p).build()
    return {"deck": b.deck(), "target": target}, b
