"""The analyses described by the outputs, in the terms of analysis.py, on the deck's grid identifiers."""
import collections, re
import numpy as np
from . import analysis
from .analysis import Loads
from .aster import Aster, AsterError
from .comm import Concept, tup
from .systus import Asc, AscError

DDL = {"DX": 0, "DY": 1, "DZ": 2, "DRX": 3, "DRY": 4, "DRZ": 5}
FC = {"FX": 0, "FY": 1, "FZ": 2, "MX": 3, "MY": 4, "MZ": 5}


class Mismatch(Exception):
    pass


def cell_normal(p):
    v = np.cross(p[1] - p[0], p[2] - p[0]) if len(p) == 3 else np.cross(p[2] - p[0], p[3] - p[1])
    return v / np.linalg.norm(v)


class AsterOut:
    """cases: [{"name":, "charges": [concepts], "calls": [...]}] in file order"""

    def __init__(self, o, sem):
        self.a = a = Aster(o)
        f = a.match(sem)
        if f:
            raise Mismatch(f[0])
        self.grid = a.grid
        self.sem = sem
        co = {}
        for n, cmd, kw in a.comm.calls:
            for c in deep(kw):
                if c.cmd == "CO":
                    co.setdefault(id(c), kw)
        self.co = co
        self.cases = []
        for name, cmd, kw in a.comm.calls:
            if name and re.fullmatch(r"RESU\d+", name):
                if kw.get("reuse") is not None:
                    continue
                self.cases.append({"name": name, "cmd": cmd, "kw": kw, "charges": self.charges(kw)})
        self._text_ids()

    def _text_ids(self):
        """the original id commented before each analysis"""
        ids, cur = {}, None
        for ln in self.a.comm.text.split("\n"):
            m = re.match(r"# Analysis original id : (\d+)", ln)
            if m:
                cur = int(m.group(1))
            m = re.match(r"(RESU\d+)\s*=", ln)
            if m and m.group(1) not in ids:
                ids[m.group(1)] = cur
                cur = None
        self.ids = ids

    def charges(self, kw):
        seen, out, todo = set(), [], [kw]
        while todo:
            k = todo.pop()
            for c in deep(k):
                if id(c) in seen:
                    continue
                seen.add(id(c))
                if c.cmd in ("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F"):
                    out.append(c)
                else:
                    todo.append(self.co.get(id(c), c.kw) if c.cmd == "CO" else c.kw)
        return out

    def node(self, j):
        return self.grid.get(j, ("new", j))

    def relations(self, charges):
        rows = []
        a = self.a
        x = a.mesh.coords
        for ch in charges:
            for f in tup(ch.kw.get("DDL_IMPO")):
                for j in a.nodes(f):
                    for d, v in f.items():
                        if d in DDL:
                            rows.append(({(self.node(j), DDL[d]): 1.}, self.val(v), "%s DDL_IMPO %s %s" % (ch.name, self.node(j), d)))
                        elif d not in ("NOEUD", "GROUP_NO", "GROUP_MA", "MAILLE", "TOUT"):
                            raise Mismatch("DDL_IMPO %s" % d)
            for f in tup(ch.kw.get("LIAISON_DDL")):
                ns, ds, cs = [a.node_named(n) for n in tup(f["NOEUD"])], tup(f["DDL"]), tup(f["COEF_MULT"])
                if not len(ns) == len(ds) == len(cs):
                    raise Mismatch("LIAISON_DDL lists of different lengths: %d NOEUD, %d DDL, %d COEF_MULT" % (len(ns), len(ds), len(cs)))
                r = {}
                for n, d, c in zip(ns, ds, cs):
                    k = (self.node(n), DDL[d])
                    r[k] = r.get(k, 0.) + c
                rows.append((r, self.val(f["COEF_IMPO"]), "%s LIAISON_DDL" % ch.name))
            for f in tup(ch.kw.get("LIAISON_SOLIDE")):
                ns = a.nodes(f)
                m = ns[0]
                for s in ns[1:]:
                    d = np.array(x[s]) - np.array(x[m])
                    for c in range(3):
                        r = {(self.node(s), c): 1., (self.node(m), c): -1.}
                        w = np.cross(d, np.eye(3)[c])
                        for k in range(3):
                            if w[k]:
                                r[self.node(m), 3 + k] = -w[k]
                        rows.append((r, 0., "%s LIAISON_SOLIDE" % ch.name))
                        rows.append(({(self.node(s), 3 + c): 1., (self.node(m), 3 + c): -1.}, 0., "%s LIAISON_SOLIDE" % ch.name))
            for f in tup(ch.kw.get("LIAISON_RBE3")):
                m = a.node_named(tup(f["NOEUD_MAIT"])[0])
                ns, ds, cs = [a.node_named(n) for n in tup(f["NOEUD_ESCL"])], tup(f["DDL_ESCL"]), tup(f["COEF_ESCL"])
                if len(cs) == 1:
                    cs = cs * len(ns)
                if len(ds) == 1:
                    ds = ds * len(ns)
                if not len(ns) == len(ds) == len(cs):
                    raise Mismatch("LIAISON_RBE3 lists of different lengths")
                terms = [(c, [DDL[q] for q in d.split("-")], n) for n, d, c in zip(ns, ds, cs)]
                rows += rbe3(np.array(x), m, [DDL[d] for d in tup(f["DDL_MAIT"])], terms, self.node, "%s LIAISON_RBE3" % ch.name)
        return rows

    @staticmethod
    def val(v):
        if isinstance(v, Concept):
            if v.cmd == "DEFI_CONSTANTE":
                return v.kw["VALE"]
            if v.cmd == "DEFI_FONCTION":
                y = set(tup(v.kw["VALE"])[1::2])
                if len(y) == 1:
                    return y.pop()
            raise Mismatch("value %s is not constant" % v)
        return float(v)

    def line(self, v, p, q):
        """the uniform intensity of a function of the abscissa between p and q"""
        if not (isinstance(v, Concept) and v.cmd == "DEFI_FONCTION"):
            return self.val(v)
        if v.kw["NOM_PARA"] != "X":
            raise Mismatch("line load as a function of %s" % v.kw["NOM_PARA"])
        w = tup(v.kw["VALE"])
        xy = sorted(zip(w[::2], w[1::2]))
        X, Y = [a for a, _ in xy], [b for _, b in xy]
        out = []
        for t in (.02, .3, .7, .98):
            a = p[0] + t * (q[0] - p[0])
            if not X[0] - 1e-9 * abs(X[0]) <= a <= X[-1] + 1e-9 * abs(X[-1]):
                raise Mismatch("line load function %s is not defined at x=%g, on its bar" % (v, a))
            out.append(float(np.interp(a, X, Y)))
        if max(out) - min(out) > 1e-6 * max(abs(max(out)), abs(min(out)), 1e-12):
            raise Mismatch("line load function %s is not uniform on its bar: %s" % (v, out))
        return out[0]

    def corners(self, c):
        t, ns = self.a.mesh.cells[c]
        n = {"TRI3": 3, "TRI6": 3, "QUAD4": 4, "QUAD8": 4, "QUAD9": 4}.get(t)
        if n is None:
            raise Mismatch("a pressure on a %s" % t)
        return ns[:n]

    def loads(self, charges):
        L = Loads()
        L.cells = set()
        a = self.a
        x = np.array(a.mesh.coords)
        for ch in charges:
            for f in tup(ch.kw.get("FORCE_NODALE")):
                for j in a.nodes(f):
                    for k, v in f.items():
                        if k in FC:
                            L.nodal[self.node(j)][FC[k]] += self.val(v)
            for key in ("PRES_REP", "FORCE_COQUE"):
                for f in tup(ch.kw.get(key)):
                    extra = set(f) - {"PRES", "GROUP_MA", "MAILLE"}
                    if extra:
                        raise Mismatch("%s with %s" % (key, extra))
                    for c in a.cells(f):
                        ns = self.corners(c)
                        L.cells.add((key, c))
                        L.faces[frozenset(self.node(j) for j in ns)] += -self.val(f["PRES"]) * cell_normal(x[ns])
            for f in tup(ch.kw.get("FORCE_FACE")):
                for c in a.cells(f):
                    ns = self.corners(c)
                    L.cells.add(("FORCE_FACE", c))
                    for k, v in f.items():
                        if k in FC:
                            if FC[k] > 2:
                                raise Mismatch("moment per unit area")
                            L.faces[frozenset(self.node(j) for j in ns)][FC[k]] += self.val(v)
            for f in tup(ch.kw.get("FORCE_POUTRE")):
                for c in a.cells(f):
                    t, ns = a.mesh.cells[c]
                    L.cells.add(("FORCE_POUTRE", c))
                    for k, v in f.items():
                        if k in FC:
                            L.lines[frozenset(self.node(j) for j in ns)][FC[k]] += self.line(v, x[ns[0]], x[ns[-1]])
            for f in tup(ch.kw.get("PESANTEUR")):
                d = np.array(f["DIRECTION"], float)
                L.gravity += f["GRAVITE"] * d / np.linalg.norm(d)
            for f in tup(ch.kw.get("ROTATION")):
                L.rotations.append((1., f["VITESSE"],         # the axis only gives the direction
                                     np.array(f["AXE"], float), np.array(f.get("CENTRE", (0, 0, 0)), float)))
            known = {"MODELE", "VERI_NORM", "DDL_IMPO", "LIAISON_DDL", "LIAISON_SOLIDE", "LIAISON_RBE3", "FORCE_NODALE", "PRES_REP", "FORCE_COQUE",
                     "FORCE_FACE", "FORCE_POUTRE", "PESANTEUR", "ROTATION"}
            if set(ch.kw) - known:
                raise Mismatch("load keyword %s" % (set(ch.kw) - known))
        return L


def rbe3(x, m, refc, terms, node, what):
    S = np.zeros((6, 6))
    M = collections.defaultdict(lambda: np.zeros(6))
    for w, ds, n in terms:
        d = x[n] - x[m]
        for c in ds:
            u = np.eye(3)[c % 3]
            a = np.concatenate([u, np.cross(d, u)]) if c < 3 else np.concatenate([np.zeros(3), u])
            S += w * np.outer(a, a)
            M[node(n), c] += w * a
    P = np.linalg.pinv(S) if np.linalg.matrix_rank(S, tol=1e-9 * max(1e-12, abs(S).max())) < 6 else np.linalg.inv(S)
    out = []
    for c in refc:
        r = {(node(m), c): 1.}
        for k, a in M.items():
            v = P[c] @ a
            if abs(v) > 1e-12:
                r[k] = r.get(k, 0.) - v
        out.append((r, 0., what))
    return out


def deep(v):
    from .comm import concepts_in
    return list(concepts_in(v))


# ---------------------------------------------------------------- Systus
class SystusOut:
    """cases: [{"label":, "asc":, "loads": [load ids]}]"""

    def __init__(self, o, sem):
        self.sem = sem
        self.ascs = []
        self.cases = []
        for name in sorted(o.files, key=lambda n: [int(t) if t.isdigit() else t for t in re.split(r"(\d+)", n)]):
            if name.endswith(".ASC"):
                a = Asc(o.files[name].decode("latin-1"))
                key = {}
                for i, n in a.nodes.items():
                    key.setdefault(tuple(round(v / 1e-5) for v in n[4]), []).append(i)
                a.grid = {}
                for g, p in sem.nodes.items():
                    got = key.get(tuple(round(float(v) / 1e-5) for v in p))
                    if not got:
                        raise Mismatch("grid %d is not in %s" % (g, name))
                    a.grid[min(got, key=lambda i: (i != g, i))] = g
                self.ascs.append(a)
                by = collections.OrderedDict()
                for l, (t, v) in a.loads.items():
                    by.setdefault(re.sub(r"_LOAD\d+$", "", t), []).append(l)
                for lab, ls in by.items():
                    self.cases.append({"label": lab, "asc": a, "loads": ls, "file": name})

    @staticmethod
    def rot(vec):
        psi, th, ph = vec[6:9]
        def rz(t):
            return np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1.]])
        def ry(t):
            return np.array([[np.cos(t), 0, np.sin(t)], [0, 1., 0], [-np.sin(t), 0, np.cos(t)]])
        def rx(t):
            return np.array([[1., 0, 0], [0, np.cos(t), -np.sin(t)], [0, np.sin(t), np.cos(t)]])
        return rz(psi) @ ry(th) @ rx(ph)

    def frame(self, a, i):
        ia = a.nodes[i][1]
        return np.eye(3) if not ia else self.rot(a.vectors[ia])

    def node(self, a, i):
        return a.grid.get(i, ("new", i))

    BITS = ((1, 0), (2, 1), (4, 2), (8, 3), (16, 4), (32, 5))

    def supports(self, case):
        a = case["asc"]
        rows = []
        for i, (ic, ia, il, idp, xyz) in a.nodes.items():
            T = self.frame(a, i)
            val = np.zeros(6)
            if idp:
                for l, v in a.lists[idp]:
                    if l in case["loads"]:
                        w = a.vectors[v][6:]
                        val[:len(w)] += w
            for bit, d in self.BITS:
                if ic & bit:
                    o = d // 3 * 3
                    r = {(self.node(a, i), o + k): T[k, d % 3] for k in range(3) if abs(T[k, d % 3]) > 1e-12}
                    rows.append((r, val[d], "node %s constraint %d" % (self.node(a, i), d + 1)))
                elif abs(val[d]) > 1e-12:
                    raise Mismatch("a displacement %g is given for freedom %d of node %s, which is not constrained" % (val[d], d + 1, self.node(a, i)))
        return rows

    def local(self, a, i, d, coef=1., node=None, off=0):
        """coef * the d-th freedom (0..5) of node i, in basic terms"""
        T = self.frame(a, i)
        o = d // 3 * 3
        n = self.node(a, i) if node is None else node
        return {(n, off + o + k): coef * T[k, d % 3] for k in range(3) if abs(T[k, d % 3]) > 1e-12}

    def equations(self, case):
        a = case["asc"]
        rows = []
        avg = collections.OrderedDict()
        for e in a.elems:
            rel = a.relations(e)
            for r in rel or ():
                q = {}
                for (i, d), c in r.items():
                    analysis.Ref.add(q, self.local(a, i, d, c))
                rows.append((q, 0., "relation element %d" % e[0]))
            m = a.materials.get(e[4], {})
            if rel is None and m.get(197) == 1 and m.get(61) in (9, 19):
                rows += self.rigid(a, e, m)
            elif rel is None and m.get(197) == 3 and m.get(61) == 19:
                k = 4 if a.nbdofs == 3 else 2
                if len(e[7]) != (5 if a.nbdofs == 3 else 3):
                    raise Mismatch("averaging element %d has %d nodes" % (e[0], len(e[7])))
                avg.setdefault((e[7][0],) + tuple(e[7][2:]), []).append((e, m))
        for key, es in avg.items():
            rows += self.average(a, key, es)
        return rows

    def rigid(self, a, e, m):
        """rigid body element: reference node, dependent node, [rotation node], [multiplier node]"""
        ns = list(e[7])
        n = 2 + (a.nbdofs == 3) + (m[61] == 19)
        if len(ns) != n:
            raise Mismatch("rigid element %d has %d nodes instead of %d" % (e[0], len(ns), n))
        M, S = ns[:2]
        rot, off = (ns[2], 0) if a.nbdofs == 3 else (M, 3)
        x = {i: np.array(a.nodes[i][4]) for i in (M, S)}
        d = x[S] - x[M]
        nm, nsl, nr = self.node(a, M), self.node(a, S), self.node(a, rot)
        out = []
        for c in range(3):
            r = {(nsl, c): 1., (nm, c): -1.}
            w = np.cross(d, np.eye(3)[c])
            for k in range(3):
                if w[k]:
                    r[nr, off + k] = -w[k]
            out.append((r, 0., "rigid element %d" % e[0]))
            if a.nbdofs == 6:
                out.append(({(nsl, 3 + c): 1., (nm, 3 + c): -1.}, 0., "rigid element %d" % e[0]))
        return out

    def average(self, a, key, es):
        M = key[0]
        rot, off = (key[1], 0) if a.nbdofs == 3 else (M, 3)
        TM = self.frame(a, M)
        x0 = np.array(a.nodes[M][4])
        S = np.zeros((6, 6))
        C = collections.defaultdict(lambda: np.zeros(6))
        refc = None
        for e, m in es:
            rc = [d for d, k in enumerate((31, 32, 33, 14, 15, 16)) if m.get(k)]
            if refc is None:
                refc = rc
            elif refc != rc:
                raise Mismatch("averaging elements of one reference node with different freedoms")
            s = e[7][1]
            T = self.frame(a, s)
            d = np.array(a.nodes[s][4]) - x0
            for c in range(a.nbdofs):
                if int(m.get(184, 0)) >> c & 1:
                    u = T[:, c % 3]
                    v = np.concatenate([u, np.cross(d, u)]) if c < 3 else np.concatenate([np.zeros(3), u])
                    S += m.get(56, 0.) * np.outer(v, v)
                    for k, f in self.local(a, s, c).items():
                        C[k] += m.get(56, 0.) * f * v
        P = np.linalg.pinv(S) if np.linalg.matrix_rank(S, tol=1e-9 * max(1e-12, abs(S).max())) < 6 else np.linalg.inv(S)
        out = []
        for c in refc or ():
            u = np.zeros(6)
            u[c // 3 * 3:c // 3 * 3 + 3] = TM[:, c % 3]
            if c < 3:
                r = self.local(a, M, c)
            else:
                r = {(self.node(a, rot), off + k): TM[k, c - 3] for k in range(3) if abs(TM[k, c - 3]) > 1e-12}
            for k, v in C.items():
                f = u @ P @ v
                if abs(f) > 1e-12:
                    r[k] = r.get(k, 0.) - f
            out.append((r, 0., "averaging element of %s" % M))
        return out

    def loads(self, case):
        a = case["asc"]
        L = Loads()
        L.cells = set()
        ls = set(case["loads"])
        for l in ls:
            v = a.loads[l][1]
            if v:
                w = a.vectors[v]
                if w[0] != 6:
                    raise Mismatch("load vector of type %g" % w[0])
                L.gravity += np.array([w[6], w[8], w[10]])
        for i, (ic, ia, il, idp, xyz) in a.nodes.items():
            if il:
                for l, v in a.lists[il]:
                    if l in ls:
                        w = a.vectors[v]
                        if any(w[:6]):
                            raise Mismatch("nodal vector %s" % w)
                        L.nodal[self.node(a, i)][:len(w) - 6] += w[6:]
        for (eid, dim, typ, n, mat, isol, ang, ns) in a.elems:
            if isol:
                from .systus import SYSTUS_ORDER
                x = [np.array(a.nodes[k][4]) for k in ns]
                cs = ns if n <= 4 and n != 2 else ns[::2]
                for l, v in a.lists[isol]:
                    if l not in ls:
                        continue
                    w = a.vectors[v]
                    L.cells.add(eid)
                    if w[0] != 1:
                        raise Mismatch("element vector %s" % w)
                    if n == 2:
                        L.lines[frozenset(self.node(a, k) for k in ns)][:len(w) - 6] += w[6:]
                    elif w[2] == 1:
                        if any(w[6:8]):
                            raise Mismatch("pressure vector %s" % w)
                        p = [np.array(a.nodes[k][4]) for k in cs]
                        L.faces[frozenset(self.node(a, k) for k in cs)] += w[8] * cell_normal(p)
                    else:
                        if any(w[9:]):
                            raise Mismatch("moment per unit area")
                        L.faces[frozenset(self.node(a, k) for k in cs)] += w[6:9]
        return L


# ---------------------------------------------------------------- comparison of loads
def compare_loads(ref, out, tol):
    """differences of two Loads"""
    bad = []

    def vec(what, a, b):
        cat = {"nodal": "nodal", "face": "faces", "line": "lines"}[what]
        for k in sorted(set(a) | set(b), key=str):
            u, v = a.get(k), b.get(k)
            u = np.zeros_like(v) if u is None else u
            v = np.zeros_like(u) if v is None else v
            m = max(np.abs(u).max(), np.abs(v).max(), ref.size.get((cat, k), 0.))      # contributions may cancel
            if np.abs(u - v).max() > tol * m + 1e-9 * big:
                bad.append("%s: on %s the deck applies %s, the output %s" % (what, sorted(k) if isinstance(k, frozenset) and all(isinstance(x, int) for x in k) else (list(k) if isinstance(k, frozenset) else k),
                                                                       np.array2string(u, precision=6), np.array2string(v, precision=6)))
    big = max([1e-12] + [np.abs(v).max() for d in (ref.nodal, ref.faces, ref.lines) for v in d.values()])
    # the node that stands for a scalar point has a number of its own: the forces on them are compared as a set
    grids = ref.grids
    vec("nodal", dict(ref.nodal), {k: v for k, v in out.nodal.items() if k in grids})
    new = {k: v for k, v in out.nodal.items() if k not in grids}
    for k, v in new.items():
        if np.abs(v[1:]).max() > 0:
            bad.append("nodal: %s is applied on %s, which is no grid" % (v, k))
    a = sorted(v for v in ref.spoint.values() if v)
    b = sorted([v[0] for v in new.values() if v[0]] + [v for v in out.spoint.values() if v])
    if len(a) != len(b) or any(abs(p - q) > tol * max([abs(p), abs(q)] + [v for c, v in ref.size.items() if c[0] == "spoint"]) for p, q in zip(a, b)):
        bad.append("scalar: the deck applies %s on scalar points, the output %s" % (a, b))
    vec("face", dict(ref.faces), dict(out.faces))
    vec("line", dict(ref.lines), dict(out.lines))
    m = max(np.abs(out.gravity).max(), ref.size.get("gravity", 0.))
    if np.abs(ref.gravity - out.gravity).max() > tol * m + 1e-12:
        bad.append("gravity: the deck applies %s, the output %s" % (ref.gravity, out.gravity))

    def key(r):
        f, w, ax, ce = r
        n = np.linalg.norm(ax)
        return (f ** .5 * w, tuple(ax / n), tuple(ce))          # a factor multiplies the forces, that go with the square of the speed
    a, b = sorted(map(key, ref.rotations)), sorted(map(key, out.rotations))
    if len(a) != len(b) or any(abs(p[0] - q[0]) > tol * abs(p[0]) or np.abs(np.subtract(p[1], q[1])).max() > tol * 10 or
                               np.abs(np.subtract(p[2], q[2])).max() > tol * max(1., np.abs(p[2]).max()) for p, q in zip(a, b)):
        bad.append("rotation: the deck applies %s, the output %s" % (a, b))
    return bad
