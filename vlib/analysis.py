"""Reference meaning of the analyses of a deck: cases, supports, linear relations and loads, from the Nastran definitions.

The same structures are filled from the outputs (outputs.py), so that they can be compared:
  relations: [(Counter-like dict {(node, dof 0..5 in the basic frame): coefficient}, right-hand side, origin)]
  Loads: nodal {node: 6-vector}, faces {frozenset(corner nodes): vector per unit area}, lines {frozenset(end nodes): 6-vector per unit length},
         gravity 3-vector, rotations [(speed, axis, centre)]
"""
import collections
import numpy as np
from .sem import F, R, Invalid, expand

KEYS = ("LOAD", "SPC", "MPC", "METHOD", "FREQ", "DLOAD", "SDAMPING", "LABEL", "STATSUB", "NLPARM", "CMETHOD", "LOADSET", "ANALYSIS", "TITLE", "SUBTITLE")


class Case(dict):
    """id (None without SUBCASE), sol, and the selections"""


def cases(deck):
    sol = None
    for ln in list(deck.get("exec", ())) + [x for x in deck.get("cc", ()) if x.split()[:1] == ["SOL"]]:
        w = ln.replace(",", " ").replace("=", " ").split()
        if w and w[0].upper() == "SOL" and len(w) > 1:
            sol = w[1].upper()
    glob, subs = {}, []
    cur = glob
    for ln in deck.get("cc", ()):
        s = ln.split("$")[0].strip()
        if not s:
            continue
        w = s.replace("=", " = ").split()
        if w[0].upper() == "SUBCASE":
            cur = dict(glob, id=int(w[-1]))
            cur.pop("LABEL", None)
            if "LABEL" in glob:
                cur["LABEL"] = glob["LABEL"]
            subs.append(cur)
            continue
        if "=" not in w:
            continue
        k = s.split("=", 1)[0].strip().upper()
        v = s.split("=", 1)[1].strip()
        if "(" in k:
            k = k[:k.index("(")].strip()
        if k == "FREQUENCY":
            k = "FREQ"
        if k in KEYS:
            cur[k] = int(v) if v.lstrip("+-").isdigit() and k not in ("LABEL", "TITLE", "SUBTITLE") else v
    out = []
    for s in subs or [dict(glob, id=None)]:
        out.append(Case(s, sol=sol))
    return out if sol is not None else []


def dofs(v):
    if v is None:
        return []
    return [int(ch) - 1 for ch in str(int(v)) if ch in "123456"]


class Loads:
    def __init__(self):
        self.nodal = collections.defaultdict(lambda: np.zeros(6))
        self.faces = collections.defaultdict(lambda: np.zeros(3))
        self.lines = collections.defaultdict(lambda: np.zeros(6))
        self.gravity = np.zeros(3)
        self.rotations = []
        self.spoint = collections.defaultdict(float)


class Ref:
    def __init__(self, sem):
        self.s = s = sem
        self.spcadd = {c[1]: [v for v in c[2:] if v is not None] for c in s.cards("SPCADD")}
        self.mpcadd = {c[1]: [v for v in c[2:] if v is not None] for c in s.cards("MPCADD")}
        self.byset = collections.defaultdict(list)
        for n in ("SPC", "SPC1"):
            for c in s.cards(n):
                self.byset["SPC", c[1]].append(c)
        for c in s.cards("MPC"):
            self.byset["MPC", c[1]].append(c)
        self.loadcards = collections.defaultdict(list)
        for n in ("FORCE", "MOMENT", "FORCE1", "FORCE2", "MOMENT1", "MOMENT2", "GRAV", "RFORCE", "PLOAD", "PLOAD1", "PLOAD2", "PLOAD4", "SPCD", "SLOAD", "TEMP"):
            for c in s.cards(n):
                self.loadcards[c[1]].append(c)
        self.comb = {}
        for c in s.cards("LOAD"):
            s.one(self.comb, c[1], c, "LOAD")

    # ------------------------------------------------------------ rows
    def row(self, n, d, coef=1.):
        """coef * component d of node n in its displacement system, as {(n, basic dof): coef}"""
        if n in self.s.spoints:
            return {(n, 0): coef}
        if n not in self.s.T:
            raise Invalid("node %r missing" % n)
        T = self.s.T[n]
        if self.s.cd[n] == 0:
            return {(n, d): coef}
        o = d // 3 * 3
        return {(n, o + k): coef * T[k, d % 3] for k in range(3) if T[k, d % 3] != 0.}

    @staticmethod
    def add(r, s, f=1.):
        for k, v in s.items():
            r[k] = r.get(k, 0.) + f * v
        return r

    def spcsets(self, sid, seen=()):
        if sid in seen:
            raise Invalid("cyclic SPCADD")
        if sid in self.spcadd:
            return [x for p in self.spcadd[sid] for x in self.spcsets(p, seen + (sid,))]
        return [sid]

    def supports(self, case, enforced):
        """[(row, value, text)]; enforced: {(node, local dof): value} from the load set replaces the support's value"""
        vals = {}

        def put(n, d, v, what):
            if n in self.s.spoints:
                d = 0
            k = (n, d)
            if k in enforced:
                v = enforced[k]
            if k in vals and abs(vals[k][0] - v) > 1e-12:
                if v == 0.:
                    return
                if vals[k][0] != 0.:
                    raise Invalid("two values for one displacement")
            vals[k] = (v, what)
        for i, c in self.s.gridcard.items():
            for d in dofs(F(c, 7, self.s.ps0)):
                put(i, d, 0., "PS of grid %d" % i)
        if case.get("SPC"):
            sets = self.spcsets(case["SPC"])
            if not any(self.byset.get(("SPC", x)) for x in sets):
                raise Invalid("SPC set missing")
            for x in sets:
                for c in self.byset.get(("SPC", x), ()):
                    if c[0] == "SPC1":
                        for n in expand(c[3:]):
                            for d in dofs(c[2]):
                                put(n, d, 0., "SPC1 %d" % x)
                    else:
                        for k in range(2, len(c), 3):
                            if F(c, k) is not None:
                                for d in dofs(F(c, k + 1, 1)):
                                    put(c[k], d, R(c, k + 2, 0.), "SPC %d" % x)
        for k, v in enforced.items():
            if k not in vals:
                raise Invalid("enforced displacement of a freedom that is not supported")
        return [(self.row(n, d), v, "%s: %d.%d" % (w, n, d + 1)) for (n, d), (v, w) in vals.items()]

    def mpcsets(self, sid):
        return [x for p in self.mpcadd[sid] for x in self.mpcsets(p)] if sid in self.mpcadd else [sid]

    def equations(self, case):
        out = []
        if case.get("MPC"):
            sets = self.mpcsets(case["MPC"])
            if not any(self.byset.get(("MPC", x)) for x in sets):
                raise Invalid("MPC set missing")
            for x in sets:
                for c in self.byset.get(("MPC", x), ()):
                    r, k, i = {}, 2, 0
                    while k < len(c):
                        if F(c, k) is not None:
                            d = dofs(F(c, k + 1, 1))
                            if len(d) != 1:
                                raise Invalid("MPC term")
                            self.add(r, self.row(c[k], d[0], R(c, k + 2, 0.)))
                        i += 1
                        k += 3 if i % 2 else 5
                    out.append((r, 0., "MPC %d" % x))
        return out

    def rigid_rows(self, m, s, comps, what):
        """the components comps of node s (its displacement system) follow the rigid motion of node m"""
        x = self.s.nodes
        d = x[s] - x[m]
        out = []
        T = self.s.T[s]
        for c in comps:
            r = self.row(s, c)
            if c < 3:
                u = T[:, c]
                for k in range(3):
                    if u[k]:
                        self.add(r, {(m, k): -u[k]})
                w = np.cross(d, u)          # u . (theta x d) = theta . (d x u)
                for k in range(3):
                    if w[k]:
                        self.add(r, {(m, 3 + k): -w[k]})
            else:
                u = T[:, c - 3]
                for k in range(3):
                    if u[k]:
                        self.add(r, {(m, 3 + k): -u[k]})
            out.append((r, 0., "%s: node %d follows %d in %d" % (what, s, m, c + 1)))
        return out

    def rbe3_rows(self, ref, refc, terms, what):
        """terms: [(weight, dofs, node)]"""
        x = self.s.nodes
        S = np.zeros((6, 6))
        M = collections.defaultdict(lambda: np.zeros(6))
        for w, ds, n in terms:
            d = x[n] - x[ref]
            for c in ds:
                u = self.s.T[n][:, c % 3]
                a = np.concatenate([u, np.cross(d, u)]) if c < 3 else np.concatenate([np.zeros(3), u])
                S += w * np.outer(a, a)
                for k, v in self.row(n, c).items():
                    M[k] += w * v * a
        if np.linalg.matrix_rank(S, tol=1e-9 * max(1e-12, abs(S).max())) < 6:
            P = np.linalg.pinv(S)
        else:
            P = np.linalg.inv(S)
        out = []
        for c in refc:
            u = np.zeros(6)
            u[c // 3 * 3:c // 3 * 3 + 3] = self.s.T[ref][:, c % 3]
            r = self.row(ref, c)
            for k, a in M.items():
                v = u @ P @ a
                if abs(v) > 1e-12:
                    self.add(r, {k: -v})
            out.append((r, 0., "%s: %d.%d" % (what, ref, c + 1)))
        return out

    def masters(self):
        """reference nodes of the rigid elements"""
        out = {c[2] for c in self.s.cards("RBE2", "CRIGD1", "RBAR1")} | {c[3] for c in self.s.cards("RBE3")}
        for c in self.s.cards("RBAR"):
            out.add(c[3] if dofs(F(c, 6)) and not dofs(F(c, 7)) else c[2])
        return out

    def rigids(self, ndof=6):
        """ndof 3: the grids have no rotation, the terms of RBE3 on them are left out"""
        out = []
        s = self.s
        for c in s.cards("RBE2"):
            sl = c[4:]
            if sl and isinstance(sl[-1], float):
                sl = sl[:-1]
            for n in expand(sl):
                s.need_nodes([n, c[2]])
                out += self.rigid_rows(c[2], n, dofs(c[3]), "RBE2 %d" % c[1])
        for c in s.cards("CRIGD1"):
            for n in expand(c[3:]):
                s.need_nodes([n, c[2]])
                out += self.rigid_rows(c[2], n, range(6), "CRIGD1 %d" % c[1])
        for c in s.cards("RBAR"):
            a, b = c[2], c[3]
            s.need_nodes([a, b])
            cna, cnb, cma, cmb = (F(c, k) for k in (4, 5, 6, 7))
            if len(dofs(cna)) + len(dofs(cnb)) not in (0, 6):
                raise Invalid("RBAR")
            ma, mb = dofs(cma), dofs(cmb)
            if not ma and not mb:
                out += self.rigid_rows(a, b, range(6), "RBAR %d" % c[1])
            elif ma and not mb:
                out += self.rigid_rows(b, a, ma, "RBAR %d" % c[1])
            elif mb and not ma:
                out += self.rigid_rows(a, b, mb, "RBAR %d" % c[1])
            else:
                raise Invalid("RBAR with dependent freedoms at both ends")
        for c in s.cards("RBAR1"):
            s.need_nodes([c[2], c[3]])
            out += self.rigid_rows(c[2], c[3], dofs(F(c, 4, 123456)), "RBAR1 %d" % c[1])
        for c in s.cards("RBE3"):
            terms, k = [], 5
            while k < len(c):
                w, ds = R(c, k, 1.), [d for d in dofs(F(c, k + 1)) if d < ndof]
                k += 2
                while k < len(c) and not isinstance(c[k], float):
                    if c[k] is not None:
                        terms.append((w, ds, c[k]))
                    k += 1
            if not terms:
                raise Invalid("RBE3")
            s.need_nodes([c[3]] + [t[2] for t in terms])
            out += self.rbe3_rows(c[3], dofs(c[4]), terms, "RBE3 %d" % c[1])
        return out

    # ------------------------------------------------------------ loads
    def resolve(self, sid, scale=1., seen=()):
        """[(factor, card)] of a load set, through combinations"""
        if sid in seen:
            raise Invalid("cyclic LOAD")
        if sid in self.comb:
            c = self.comb[sid]
            out = [(scale, x) for x in self.loadcards.get(sid, ())]
            for k in range(3, len(c), 2):
                if F(c, k + 1) is not None:
                    out += self.resolve(c[k + 1], scale * R(c, 2, 1.) * R(c, k, 1.), seen + (sid,))
            return out
        if sid not in self.loadcards:
            raise Invalid("load set %r missing" % sid)
        return [(scale, x) for x in self.loadcards[sid]]

    def vector(self, cid, n, v):
        v = np.array(v, float)
        if not cid:
            return v
        return self.s.get_cs(cid).basis(self.s.nodes[n]) @ v

    def enforced(self, case):
        out = {}
        if case.get("LOAD"):
            for f, c in self.resolve(case["LOAD"]):
                if c[0] == "SPCD":
                    for k in range(2, len(c), 3):
                        if F(c, k) is not None:
                            for d in dofs(F(c, k + 1)):
                                if (c[k], d) in out:
                                    raise Invalid("two enforced values")
                                out[c[k], d] = f * R(c, k + 2, 0.)
        return out

    def loads(self, sid):
        L = Loads()
        L.grids = set(self.s.nodes)
        if sid is None:
            return L
        L.size = {}
        for f, c in self.resolve(sid):
            one = Loads()
            self.load_card(one, f, c)
            for cat in ("nodal", "faces", "lines", "spoint"):
                for k, v in getattr(one, cat).items():
                    getattr(L, cat)[k] += v
                    L.size[cat, k] = L.size.get((cat, k), 0.) + np.abs(v).max()
            L.gravity = L.gravity + one.gravity
            L.size["gravity"] = L.size.get("gravity", 0.) + np.abs(one.gravity).max()
            L.rotations += one.rotations
        return L

    def load_card(self, L, f, c):
        s = self.s
        x = s.nodes
        for c in (c,):
            k = c[0]
            if k in ("FORCE", "MOMENT"):
                if c[2] in s.spoints:
                    raise Invalid("force on a scalar point")
                s.need_nodes([c[2]])
                v = f * R(c, 4, 0.) * self.vector(F(c, 3, 0), c[2], [R(c, j, 0.) for j in (5, 6, 7)])
                L.nodal[c[2]][slice(0, 3) if k == "FORCE" else slice(3, 6)] += v
            elif k in ("FORCE1", "MOMENT1"):
                s.need_nodes([c[2], c[4], c[5]])
                d = x[c[5]] - x[c[4]]
                if not d.any():
                    raise Invalid("direction")
                L.nodal[c[2]][slice(0, 3) if k == "FORCE1" else slice(3, 6)] += f * R(c, 3) * d / np.linalg.norm(d)
            elif k in ("FORCE2", "MOMENT2"):
                s.need_nodes([c[2]] + c[4:8])
                d = np.cross(x[c[5]] - x[c[4]], x[c[7]] - x[c[6]])
                if np.linalg.norm(d) < 1e-9:
                    raise Invalid("direction")
                L.nodal[c[2]][slice(0, 3) if k == "FORCE2" else slice(3, 6)] += f * R(c, 3) * d / np.linalg.norm(d)
            elif k == "GRAV":
                L.gravity += f * R(c, 3) * self.s.get_cs(F(c, 2, 0)).basis(np.zeros(3)) @ np.array([R(c, j, 0.) for j in (4, 5, 6)])
            elif k == "RFORCE":
                s.need_nodes([c[2]])
                a = np.array([R(c, j, 0.) for j in (5, 6, 7)])
                if not a.any():
                    raise Invalid("RFORCE without a direction")
                if f < 0:
                    raise Invalid("RFORCE times a negative factor")
                L.rotations.append((f, 2 * np.pi * R(c, 4, 0.) * np.linalg.norm(a), a, x[c[2]]))     # revolutions per unit time
            elif k == "PLOAD":
                ns = [n for n in c[3:7] if n is not None]
                s.need_nodes(ns)
                # four grids: each of the four triangles of three of them, with half of the pressure (QRG, PLOAD)
                tris = [ns] if len(ns) == 3 else [[ns[0], ns[1], ns[2]], [ns[0], ns[2], ns[3]], [ns[0], ns[1], ns[3]], [ns[1], ns[2], ns[3]]]
                for t in tris:
                    A = np.cross(x[t[1]] - x[t[0]], x[t[2]] - x[t[0]]) / 2
                    for n in t:
                        L.nodal[n][:3] += f * R(c, 2) * A / 3 / (1 if len(ns) == 3 else 2)
            elif k == "PLOAD2":
                for e in expand(c[3:]):
                    el = s.elems.get(e)
                    if el is None or not el.topo.startswith(("TRI", "QUAD")):
                        raise Invalid("PLOAD2")
                    L.faces[self.corners(el)] += f * R(c, 2) * self.normal(el)
            elif k == "PLOAD4":
                self.pload4(L, f, c)
            elif k == "PLOAD1":
                el = s.elems.get(c[2])
                if el is None or el.topo != "SEG2":
                    raise Invalid("PLOAD1")
                if F(c, 4) not in ("FR", "LE") or R(c, 6) != R(c, 8) or R(c, 5) != 0. or (F(c, 4) == "FR" and R(c, 7) != 1.):
                    raise Invalid("PLOAD1 form")
                d = ("FX", "FY", "FZ", "MX", "MY", "MZ").index(F(c, 3))
                L.lines[frozenset(el.nodes)][d] += f * R(c, 6)
            elif k == "SLOAD":
                for j in range(2, len(c), 2):
                    if F(c, j) is not None:
                        if c[j] in s.spoints:
                            L.spoint[c[j]] += f * R(c, j + 1)
                        else:
                            raise Invalid("SLOAD on a grid")

    @staticmethod
    def ncorner(topo):
        fam = topo.rstrip("0123456789")
        return {"TRI": 3, "QUAD": 4, "TETRA": 4, "PYRA": 5, "PENTA": 6, "HEXA": 8}[fam]

    def corners(self, el):
        return frozenset(el.nodes[:self.ncorner(el.topo)])

    def normal(self, el):
        p = [self.s.nodes[n] for n in el.nodes]
        v = np.cross(p[1] - p[0], p[2] - p[0]) if el.topo.startswith("TRI") else np.cross(p[2] - p[0], p[3] - p[1])
        l = np.linalg.norm(v)
        if l < 1e-9:
            raise Invalid("flat element")
        return v / l

    def pload4(self, L, f, c):
        from .wide import FACES
        s = self.s
        p = R(c, 3)
        for k in (4, 5, 6):
            if R(c, k, p) != p:
                raise Invalid("varying pressure")
        n = [R(c, k, 0.) for k in (10, 11, 12)]
        direction = None
        if any(n):
            direction = np.array(n) / np.linalg.norm(n)
        if F(c, 9):
            raise Invalid("PLOAD4 CID")
        if F(c, 7) == "THRU":
            els = [e for e in range(c[2], c[8] + 1) if e in s.elems]
        else:
            els = [c[2]]
        for e in els:
            el = s.elems.get(e)
            if el is None:
                raise Invalid("PLOAD4 element")
            if el.topo.startswith(("TRI", "QUAD")):
                L.faces[self.corners(el)] += f * p * (direction if direction is not None else self.normal(el))
                continue
            if el.topo == "SEG2":
                raise Invalid("PLOAD4 on a bar")
            fam = el.topo.rstrip("0123456789")
            g1, g3 = F(c, 7), F(c, 8)
            nc = self.ncorner(el.topo)
            cs = el.nodes[:nc]
            cand = []
            for face in FACES[fam]:
                fn = [cs[k] for k in face]
                if fam == "TETRA":
                    if g1 in fn and g3 in cs and g3 not in fn:
                        cand.append(fn)
                elif len(fn) == 3:
                    if g1 in fn and g3 is None:
                        cand.append(fn)
                elif g1 in fn and g3 in fn and (fn.index(g1) - fn.index(g3)) % 4 == 2:
                    cand.append(fn)
            if len(cand) != 1:
                raise Invalid("PLOAD4 face")
            q = [s.nodes[k] for k in cand[0]]
            v = np.cross(q[1] - q[0], q[2] - q[0]) if len(q) == 3 else np.cross(q[2] - q[0], q[3] - q[1])
            v = v / np.linalg.norm(v)
            # out of the element
            if v @ (q[0] - sum(s.nodes[k] for k in cs) / nc) < 0:
                v = -v
            L.faces[frozenset(cand[0])] += f * p * (direction if direction is not None else -v)

    # ------------------------------------------------------------ which freedoms have stiffness or mass
    def live(self):
        s = self.s
        out = set()
        for e in s.elems.values():
            six = e.card in ("CBAR", "CBEAM") or e.topo.startswith(("TRI", "QUAD"))
            for n in e.nodes:
                out |= {(n, d) for d in range(6 if six else 3)}
        for c in s.cards("CELAS1", "CELAS2", "CDAMP1", "CDAMP2", "CMASS2"):
            for k in ((3, 4), (5, 6)):
                n = F(c, k[0])
                if n in s.nodes:
                    o = (F(c, k[1], 1) - 1) // 3 * 3
                    out |= {(n, o + j) for j in range(3)} if s.cd[n] else {(n, F(c, k[1], 1) - 1)}
        for c in s.cards("CBUSH"):
            p = [x for x in s.cards("PBUSH") if x[1] == F(c, 2)]
            for n in (F(c, 3), F(c, 4)):
                if n in s.nodes and p:
                    for d in range(6):
                        if F(p[0], 3 + d) is not None:
                            out.add((n, d))
        for c in s.cards("CONM2"):
            out |= {(c[2], d) for d in range(3)}
            if any(R(c, k, 0.) for k in range(9, 15)):
                out |= {(c[2], d) for d in range(3, 6)}
        return out


# ---------------------------------------------------------------- comparing kinematics
def components(rows):
    """groups of row indices that share variables"""
    parent = {}

    def find(a):
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a
    for r in rows:
        ks = [("v",) + k for k in r[0]]
        for k in ks:
            parent.setdefault(k, k)
        for k in ks[1:]:
            parent[find(k)] = find(ks[0])
    return parent, find


def space(rows, cols, dead, tol):
    """orthonormal basis of the rows implied on the live columns (last column: right-hand side)"""
    A = np.zeros((len(rows), len(cols) + 1))
    ix = {c: i for i, c in enumerate(cols)}
    for i, (r, v, _) in enumerate(rows):
        for k, x in r.items():
            A[i, ix[k]] = x
        A[i, -1] = v
        n = np.linalg.norm(A[i, :-1])
        if n:
            A[i] /= n
    dc = [ix[c] for c in cols if c in dead]
    lc = [ix[c] for c in cols if c not in dead] + [len(cols)]
    if dc and len(rows):
        D = A[:, dc]
        u, sv, _ = np.linalg.svd(D, full_matrices=True)
        rank = int((sv > 1e-9 * max(1., sv[0] if len(sv) else 0)).sum())
        A = u[:, rank:].T @ A
    B = A[:, lc] if len(A) else np.zeros((0, len(lc)))
    if not len(B):
        return B, lc
    u, sv, vt = np.linalg.svd(B, full_matrices=False)
    k = int((sv > tol).sum())
    return vt[:k], lc


def compare_spaces(ref, out, live, tol=1e-5, name=str):
    """differences between two systems of relations as seen by the live freedoms"""
    ref = [r for r in ref if any(r[0].values())]
    out = [r for r in out if any(r[0].values())]
    parent, find = components(ref + out)
    groups = collections.defaultdict(lambda: ([], []))
    for i, rs in enumerate((ref, out)):
        for r in rs:
            groups[find(("v",) + next(iter(r[0])))][i].append(r)
    fails = []
    for a, b in groups.values():
        cols = sorted({k for r in a + b for k in r[0]}, key=str)
        dead = {c for c in cols if c not in live}
        X, lc = space(a, cols, dead, max(tol, 1e-8))
        Y, _ = space(b, cols, dead, max(tol, 1e-8))
        for P, Q, what, rows in ((X, Y, "missing", a), (Y, X, "invented", b)):
            if not len(P):
                continue
            res = P - (P @ Q.T) @ Q if len(Q) else P
            w = np.abs(res).max(axis=1)
            if w.max() > tol * 10:
                j = int(w.argmax())
                v = P[j]
                lab = [cols[i] if i < len(cols) else "rhs" for i in lc]
                txt = " ".join("%.4g*%s" % (v[i], name(lab[i])) for i in np.argsort(-np.abs(v))[:8] if abs(v[i]) > 1e-6)
                who = sorted({r[2] for r in rows})[:6]
                fails.append("%s: the %s relation [%s] (deviation %.3g); statements involved: %s" % (what, {"missing": "deck's", "invented": "output's"}[what], txt, w[j], who))
    return fails
