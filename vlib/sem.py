"""Reference meaning of a Nastran deck, written from the Nastran definitions (not from VEGA's code)."""
import math
import numpy as np
from .engine import Skip


class Invalid(Skip):
    """The deck is not a well-formed model: it refers to things it does not define."""


class CS:
    def __init__(self, kind, o, axes):
        self.kind = kind
        self.o = np.array(o, float)
        self.A = np.array(axes, float).T      # columns ex, ey, ez

    def to_cart(self, p):
        a, b, c = p
        if self.kind == "R":
            return (a, b, c)
        if self.kind == "C":
            t = math.radians(b)
            return (a * math.cos(t), a * math.sin(t), c)
        t, f = math.radians(b), math.radians(c)
        return (a * math.sin(t) * math.cos(f), a * math.sin(t) * math.sin(f), a * math.cos(t))

    def point(self, p):
        return self.o + self.A @ np.array(self.to_cart(p))

    def singular_at(self, x):
        if self.kind == "R":
            return False
        l = self.A.T @ (np.array(x, float) - self.o)
        return math.hypot(l[0], l[1]) < 1e-6

    def basis(self, x):
        """columns: the three local directions at the point x (basic coordinates)"""
        if self.kind == "R":
            return self.A
        l = self.A.T @ (np.array(x, float) - self.o)
        f = math.atan2(l[1], l[0])
        er = np.array([math.cos(f), math.sin(f), 0.])
        ef = np.array([-math.sin(f), math.cos(f), 0.])
        if self.kind == "C":
            loc = np.array([er, ef, [0, 0, 1.]]).T
        else:
            t = math.atan2(math.hypot(l[0], l[1]), l[2])
            rr = math.sin(t) * er + np.array([0, 0, math.cos(t)])
            tt = math.cos(t) * er - np.array([0, 0, math.sin(t)])
            loc = np.array([rr, tt, ef]).T
        return self.A @ loc


BASIC = CS("R", (0, 0, 0), np.eye(3))
SHELL_CARDS = {"CTRIA3": 3, "CTRIAR": 3, "CTRIA6": 6, "CQUAD4": 4, "CQUADR": 4, "CQUAD8": 8}
SOLID_CARDS = {"CTETRA": (4, 10), "CPYRA": (5, 13), "CPYRAM": (5, 13), "CPENTA": (6, 15), "CHEXA": (8, 20), "CIHEX1": (8, 20),
               "CIHEX2": (8, 20), "CQUAD": (4, 8, 9)}
TOPO = {("S", 3): "TRI3", ("S", 6): "TRI6", ("S", 4): "QUAD4", ("S", 8): "QUAD8", ("S", 9): "QUAD9"}
SOLID_TOPO = {("CTETRA", 4): "TETRA4", ("CTETRA", 10): "TETRA10", ("CPYRA", 5): "PYRA5", ("CPYRA", 13): "PYRA13",
              ("CPENTA", 6): "PENTA6", ("CPENTA", 15): "PENTA15", ("CHEXA", 8): "HEXA8", ("CHEXA", 20): "HEXA20"}

# MED reference elements, as positions of the Nastran node list. In MED the base of a volume is listed so that its normal points
# out of the element, in Nastran into it: the base is walked the other way round. Mid-side nodes follow their edges.
EDGES_NAS = {  # mid-side node index -> edge (Nastran numbering, from 0)
    "TETRA10": {4: (0, 1), 5: (1, 2), 6: (0, 2), 7: (0, 3), 8: (1, 3), 9: (2, 3)},
    "PYRA13": {5: (0, 1), 6: (1, 2), 7: (2, 3), 8: (3, 0), 9: (0, 4), 10: (1, 4), 11: (2, 4), 12: (3, 4)},
    "PENTA15": {6: (0, 1), 7: (1, 2), 8: (2, 0), 9: (0, 3), 10: (1, 4), 11: (2, 5), 12: (3, 4), 13: (4, 5), 14: (5, 3)},
    "HEXA20": {8: (0, 1), 9: (1, 2), 10: (2, 3), 11: (3, 0), 12: (0, 4), 13: (1, 5), 14: (2, 6), 15: (3, 7), 16: (4, 5),
               17: (5, 6), 18: (6, 7), 19: (7, 4)},
}
CORNER_MED = {"TETRA": [0, 2, 1, 3], "PYRA": [0, 3, 2, 1, 4], "PENTA": [0, 2, 1, 3, 5, 4], "HEXA": [0, 3, 2, 1, 4, 7, 6, 5]}
EDGES_MED = {  # MED mid-side nodes in order: edges between MED corners
    "TETRA10": [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    "PYRA13": [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
    "PENTA15": [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)],
    "HEXA20": [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)],
}


def med_order(topo):
    """positions in the Nastran list, in MED order"""
    fam = topo.rstrip("0123456789")
    if fam not in CORNER_MED:
        return None
    corners = CORNER_MED[fam]
    if topo not in EDGES_MED:
        return list(corners)
    mid = {frozenset(e): i for i, e in EDGES_NAS[topo].items()}
    return list(corners) + [mid[frozenset((corners[a], corners[b]))] for a, b in EDGES_MED[topo]]


def F(c, i, default=None):
    """field i (1 = first data field)"""
    v = c[i] if i < len(c) else None
    return default if v is None else v


def R(c, i, default=None):
    v = F(c, i, default)
    return None if v is None else float(v)


def expand(vals):
    """integer list with THRU / BY"""
    out, i = [], 0
    vals = [v for v in vals if v is not None]
    while i < len(vals):
        v = vals[i]
        if isinstance(v, str) and v.upper() == "THRU":
            lo, hi, step = out[-1], vals[i + 1], 1
            i += 2
            if i < len(vals) and isinstance(vals[i], str) and vals[i].upper() == "BY":
                step = vals[i + 1]
                i += 2
            if lo > hi:
                lo, hi = hi, lo
                out[-1] = lo
            x = lo + step
            while x < hi:
                out.append(x)
                x += step
            if hi != lo:
                out.append(hi)
        else:
            out.append(v)
            i += 1
    return out


class Elem:
    __slots__ = ("eid", "card", "topo", "nodes", "pid", "orient", "zoffs", "cid", "data")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))


class Sem:
    def __init__(self, deck):
        self.deck = deck
        self.by = {}
        for c in deck["cards"]:
            self.by.setdefault(c[0], []).append(c)
        try:
            self._cs()
            self._elems()
        except (IndexError, TypeError, KeyError, ValueError) as e:
            raise Invalid("malformed card: %r" % e)

    def cards(self, *names):
        return [c for n in names for c in self.by.get(n, ())]

    def one(self, d, key, v, what):
        if key in d:
            raise Invalid("duplicate %s %r" % (what, key))
        d[key] = v

    # ------------------------------------------------------------ coordinate systems and nodes
    def _cs(self):
        grd = self.by.get("GRDSET", [[]])
        if len(grd) > 1:
            raise Invalid("two GRDSET")
        gs = grd[0]
        self.gridcard, self.nodes, self.T, self.cd = {}, {}, {}, {}
        for c in self.cards("GRID"):
            self.one(self.gridcard, c[1], c, "GRID")
        self.cscard = {}
        for c in self.cards("CORD2R", "CORD2C", "CORD2S"):
            self.one(self.cscard, c[1], c, "CS")
        for c in self.cards("CORD1R"):
            for k in range(1, len(c), 4):
                if F(c, k) is not None:
                    self.one(self.cscard, c[k], ["CORD1R"] + c[k:k + 4], "CS")
        self.cs = {0: BASIC}
        self._busy = set()
        self.cp0, self.cd0, self.ps0 = F(gs, 2, 0), F(gs, 6, 0), F(gs, 7)
        for i in self.cscard:
            self.get_cs(i)
        for i in self.gridcard:
            self.node(i)
        self.spoints = set()
        for c in self.cards("SPOINT"):
            for i in expand(c[1:]):
                if i in self.nodes or i in self.spoints:
                    raise Invalid("duplicate point")
                self.spoints.add(i)
        for i, c in self.gridcard.items():
            cd = F(c, 6, self.cd0)
            cs = self.get_cs(cd)
            if cs.singular_at(self.nodes[i]):
                raise Invalid("displacement system singular at a grid")
            self.cd[i] = cd
            self.T[i] = cs.basis(self.nodes[i])

    def node(self, i):
        if i in self.nodes:
            return self.nodes[i]
        if i not in self.gridcard:
            raise Invalid("GRID %r missing" % i)
        if ("n", i) in self._busy:
            raise Invalid("cyclic definition")
        self._busy.add(("n", i))
        c = self.gridcard[i]
        p = self.get_cs(F(c, 2, self.cp0)).point([R(c, k, 0.) for k in (3, 4, 5)])
        self.nodes[i] = p
        return p

    def get_cs(self, i):
        if i in self.cs:
            return self.cs[i]
        if i not in self.cscard:
            raise Invalid("CS %r missing" % i)
        if ("c", i) in self._busy:
            raise Invalid("cyclic definition")
        self._busy.add(("c", i))
        c = self.cscard[i]
        if c[0] == "CORD1R":
            a, b, d = (np.array(self.node(n)) for n in c[2:5])
            kind = "R"
        else:
            ref = self.get_cs(F(c, 2, 0))
            a, b, d = (ref.point([R(c, k + j, 0.) for j in range(3)]) for k in (3, 6, 9))
            kind = c[0][-1]
        z = b - a
        if np.linalg.norm(z) < 1e-9:
            raise Invalid("degenerate CS")
        z = z / np.linalg.norm(z)
        x = d - a
        x = x - (x @ z) * z
        if np.linalg.norm(x) < 1e-6:
            raise Invalid("degenerate CS")
        x = x / np.linalg.norm(x)
        self.cs[i] = CS(kind, a, (x, np.cross(z, x), z))
        return self.cs[i]

    # ------------------------------------------------------------ elements
    def need_nodes(self, ns):
        for n in ns:
            if n not in self.nodes and n not in self.spoints:
                raise Invalid("node %r missing" % n)

    def _elems(self):
        self.elems = {}
        for card, n in SHELL_CARDS.items():
            for c in self.cards(card):
                ns = [F(c, 3 + k) for k in range(n)]
                z = {3: 7, 6: 10, 4: 8, 8: 16}[n]
                self._elem(Elem(eid=c[1], card=card, topo=TOPO["S", n], nodes=ns, pid=F(c, 2, c[1]), zoffs=R(c, z, 0.)))
        for card, sizes in SOLID_CARDS.items():
            for c in self.cards(card):
                ns = [v for v in c[3:] if v is not None]
                if len(ns) not in sizes:
                    raise Invalid("connectivity")
                nm = {"CPYRAM": "CPYRA", "CIHEX1": "CHEXA", "CIHEX2": "CHEXA"}.get(card, card)
                topo = TOPO["S", len(ns)] if card == "CQUAD" else SOLID_TOPO[nm, len(ns)]
                self._elem(Elem(eid=c[1], card=card, topo=topo, nodes=ns, pid=F(c, 2, c[1])))
        for card in ("CBAR", "CBEAM"):
            for c in self.cards(card):
                ns = [c[3], c[4]]
                self.need_nodes(ns)
                a = self.nodes[ns[0]]
                if isinstance(F(c, 5), int):
                    if F(c, 5) not in self.nodes:
                        raise Invalid("G0 missing")
                    v = self.nodes[c[5]] - a
                else:
                    v = self.T[ns[0]] @ np.array([R(c, 5, 0.), R(c, 6, 0.), R(c, 7, 0.)])
                d = self.nodes[ns[1]] - a
                if np.linalg.norm(np.cross(d, v)) < 1e-6 * max(1e-12, np.linalg.norm(d) * np.linalg.norm(v)) or not d.any():
                    raise Invalid("degenerate bar")
                self._elem(Elem(eid=c[1], card=card, topo="SEG2", nodes=ns, pid=F(c, 2, c[1]), orient=v))
        for c in self.cards("CROD"):
            self._elem(Elem(eid=c[1], card="CROD", topo="SEG2", nodes=[c[3], c[4]], pid=F(c, 2, c[1])))
        for c in self.cards("CONROD"):
            self._elem(Elem(eid=c[1], card="CONROD", topo="SEG2", nodes=[c[2], c[3]], data=c))

    def _elem(self, e):
        self.need_nodes(e.nodes)
        if len(set(e.nodes)) != len(e.nodes):
            raise Invalid("repeated node")
        self.one(self.elems, e.eid, e, "element")

    def props(self):
        """pid -> card; every structural element has its property and every property its materials"""
        names = ("PSHELL", "PCOMP", "PSOLID", "PLSOLID", "PIHEX", "PBAR", "PBARL", "PBEAM", "PBEAML", "PROD", "PELAS", "PBUSH", "PDAMP", "PVISC")
        out = {}
        for n in names:
            for c in self.cards(n):
                self.one(out, c[1], c, "property")
        mats = {}
        for c in self.cards("MAT1", "MAT8"):
            self.one(mats, c[1], c, "material")
            if c[0] == "MAT1" and F(c, 2) is None and F(c, 3) is None:
                raise Invalid("MAT1 without E and G")
            if c[0] == "MAT8" and any(F(c, k) is None for k in (2, 3, 4, 5)):
                raise Invalid("MAT8 without its constants")
        for c in self.cards("MATHP"):
            self.one(mats, c[1], c, "material")
        for e in self.elems.values():
            if e.pid is not None and e.card != "CONROD" and e.pid not in out:
                raise Invalid("property missing")
            if e.card == "CONROD" and e.data[4] not in mats:
                raise Invalid("material missing")
        need = {"PSHELL": (2, 3), "PSOLID": (2,), "PBAR": (2, 3), "PBEAM": (2, 3, 4, 5), "PROD": (2, 3), "PBARL": (2, 4, 9), "PBEAML": (2, 4, 9)}
        dims = {"BAR": 2, "ROD": 1, "TUBE": 2, "I": 6}
        for c in out.values():
            if any(F(c, k) is None for k in need.get(c[0], ())) or (
                    c[0] in ("PBARL", "PBEAML") and any(F(c, 9 + k) is None for k in range(dims.get(c[4], 0)))):
                raise Invalid("incomplete property")
            ms = []
            if c[0] == "PCOMP":
                ms = [m for m in c[9::4] if m is not None]
                if not ms or F(c, 9) is None or len(c) < 11:
                    raise Invalid("PCOMP without plies")
            elif c[0] not in ("PELAS", "PBUSH", "PDAMP", "PVISC"):
                ms = [F(c, 2)]
            for m in ms:
                if m not in mats:
                    raise Invalid("material missing")
        self.materials, self.properties = mats, out
        return out

    NSM_FIELD = {"PSHELL": 8, "PBAR": 7, "PBEAM": 8, "PROD": 6, "PCOMP": 3}

    def nsm(self, e):
        """non-structural mass of the element's property (per unit length or area)"""
        if e.card == "CONROD":
            return R(e.data, 8, 0.)
        p = self.properties[e.pid]
        if p[0] in ("PBARL", "PBEAML"):
            return R(p, 9 + {"BAR": 2, "ROD": 1, "TUBE": 2, "I": 6}.get(p[4], 0), 0.)
        return R(p, self.NSM_FIELD[p[0]], 0.) if p[0] in self.NSM_FIELD else 0.
