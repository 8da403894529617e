"""C06: orientations of bars and offsets of shells are preserved."""
import sys
import numpy as np
from vlib import aster, engine, gen, section, systus
from vlib.deckcheck import DeckCheck, read_nas, OutputInvalid
from vlib.gen import sig
from vlib.sem import Invalid, Sem


class G(gen.B):
    systems = ()
    grids_aligned = .2

    def grid(self, cp=None, cd=None, ps=None):
        if cd is None and self.systems and self.rng.random() < .5:
            cd = self.rng.choice(self.systems)
        return gen.B.grid(self, cp, cd, ps)

    def vector(self):
        r = self.rng
        while True:
            v = [r.choice([-3., -2., -1., 0., 0., None, 1., 2., 3., .5, sig(r, -2, 2)]) for _ in range(3)]
            if any(v):
                if r.random() < .2:
                    k = r.choice([.001, 100., .25])
                    v = [x and float("%.4g" % (x * k)) for x in v]
                return v

    def orientation(self, ns):
        r = self.rng
        others = [n for n in self.nodes if n not in ns]
        if others and r.random() < .3:
            self.tags.add("orient:G0")
            return [r.choice(others), None, None]
        v = self.vector()
        self.tags.add("orient:vector")
        if None in v:
            self.tags.add("orient:blank")
        return v

    def pair(self):
        """two grids, sometimes along an axis of the basic system"""
        r = self.rng
        if r.random() > self.grids_aligned:
            return self.pick_nodes(2)
        i = self.grid()
        p = list(self.xyz[i])
        while tuple(p) in self.taken or tuple(p) == (0., 0., 0.):
            k = r.randrange(3) if r.random() < .5 else 2
            p[k] += r.choice([-4., -1., .5, 2., 7.])
        self.taken.add(tuple(p))
        j = self.id("grid")
        self.add("GRID", j, None, *p, r.choice(self.systems) if self.systems and r.random() < .3 else None)
        self.nodes.append(j)
        self.xyz[j] = tuple(p)
        self.tags.add("axis:aligned")
        self.nodesets.add(frozenset((i, j)))
        return [i, j]

    def bars(self, pid, card, n):
        r = self.rng
        for _ in range(n):
            if self.bar_pairs and r.random() < .3:
                ns, last = r.choice(self.bar_pairs)
                if r.random() < .3:
                    ns = ns[::-1]
                self.tags.add("bar:same-nodes")
                k = r.choice(["same", "double", "minus", "new", "new"])
                if isinstance(last[0], int) or k == "new" or k == "same":
                    v = last if k == "same" else self.orientation(ns)
                else:
                    v = [x and x * (2. if k == "double" else -1.) for x in last]
            else:
                ns = self.pair()
                v = self.orientation(ns)
            self.bar_pairs.append((ns, v))
            c = [card, self.id("elem"), pid, *ns, *v]
            if r.random() < .15:
                c += ["GGG"]
            self.cards.append(c)


class C06(DeckCheck):
    prop = "C06"
    rule = ("Decks with 1-14 bars and beams (PBAR, PBARL, PBEAM, PBEAML) oriented by vectors (with blank components, of any length, repeated, doubled or "
            "opposed) or by a grid, several on the same two grids or along an axis of the basic system, first grids having Cartesian (also nested) or "
            "cylindrical displacement systems; shells and composites with ZOFFS and Z0, several offsets per property; non-structural mass; "
            "sent to Code_Aster, Systus or Nastran (both dialects). Non-trivial: at least two bars with different axes or an offset.")
    assumptions = ["spherical displacement systems of the first grid of a bar are not generated (VEGA announces that it ignores them)",
                   "Systus: the default frame has its x axis along the element and its y axis along Z ^ x (Y for an element along Z), and PHI turns it about x; "
                   "offsets are announced as ignored there",
                   "bars at less than 0.6 degree from their vector are not generated"]
    quick_n, thorough_n = 6000, 120000
    targets = ("ASTER", "ASTER", "SYSTUS", "NASTRAN", "COSMIC")

    def gen(self, r):
        b = G(r)
        t = r.choice(self.targets)
        b.target, b.bar_pairs, b.systems = t, [], []
        if r.random() < .5:
            for _ in range(r.randint(1, 3)):
                rid = r.choice([None] + [k for k, v in b.cs.items() if v == "R"])
                b.systems.append(b.cord2(rid or 0, "RRC"))
        for _ in range(r.randint(1, 4)):
            k = r.choice(["bar", "bar", "bar", "shell"] if t != "SYSTUS" else ["bar"])
            if k == "bar":
                f, card = r.choice([(b.pbar, "CBAR"), (lambda: b.pbarl("PBARL"), "CBAR"), (b.pbeam, "CBEAM"), (lambda: b.pbarl("PBEAML"), "CBEAM")])
                pid = f()
                if b.cards[-1][0] in ("PBAR", "PBEAM") and r.random() < .2:
                    c, i = b.cards[-1], 7 if b.cards[-1][0] == "PBAR" else 8
                    c += [None] * (i + 1 - len(c))
                    c[i] = gen.logsig(r, .1, 9)
                b.bars(pid, card, r.choice([1, 1, 2, 3, 5]))
            else:
                pid = b.pshell() if r.random() < .6 or t != "ASTER" else b.pcomp()
                zs = [r.choice([0., sig(r, -4, 4, 2), .5, -.5, .25]) for _ in range(2)]
                for _ in range(r.choice([1, 2, 3, 4])):
                    b.shell(pid, zoffs=r.choice(zs))
        d = b.deck()
        # bars almost along their vector are left out
        try:
            bad = self.degenerate(d)
        except engine.Skip:
            bad = set()
        b.cards[:] = [c for c in b.cards if not (c[0] in ("CBAR", "CBEAM") and c[1] in bad)]
        used = {c[2] for c in b.cards if c[0] in ("CBAR", "CBEAM") or c[0] in gen_shells}
        b.cards[:] = [c for c in b.cards if not (c[0][:2] in ("PB", "PS", "PC") and c[1] not in used)]
        mats = {c[2] for c in b.cards if c[0][:2] in ("PB", "PS")} | {m for c in b.cards if c[0] == "PCOMP" for m in c[9::4]}
        b.cards[:] = [c for c in b.cards if not (c[0] in ("MAT1", "MAT8") and c[1] not in mats)]
        r.shuffle(b.cards)
        return {"deck": b.deck(), "target": t, "gtags": sorted(b.tags)}

    @staticmethod
    def degenerate(d):
        bad = set()
        cards = d["cards"]
        s = Sem(dict(d, cards=[c for c in cards if c[0] not in ("CBAR", "CBEAM")]))
        for c in cards:
            if c[0] in ("CBAR", "CBEAM"):
                a, x = s.nodes[c[3]], s.nodes[c[4]] - s.nodes[c[3]]
                v = s.nodes[c[5]] - a if isinstance(c[5], int) else s.T[c[3]] @ np.array([k or 0. for k in c[5:8]])
                if not np.linalg.norm(np.cross(x, v)) > .01 * np.linalg.norm(x) * np.linalg.norm(v):
                    bad.add(c[1])
        return bad

    def sem(self, case):
        s = DeckCheck.sem(self, case)
        if self.degenerate(case["deck"]):
            raise Invalid("bar along its vector")
        if not s.elems:
            raise Invalid("no element")
        if not set(s.materials) <= {m for p in s.properties.values() for m in (p[9::4] if p[0] == "PCOMP" else p[2:3])}:
            raise Invalid("unused material")
        for e in s.elems.values():
            p = s.properties[e.pid][0]
            if (p in ("PBAR", "PBARL")) != (e.card == "CBAR") or (p in ("PBEAM", "PBEAML")) != (e.card == "CBEAM"):
                raise Invalid("property of another family")
            if e.orient is not None and s.cs[s.cd[e.nodes[0]]].kind == "S":
                raise Invalid("spherical system")
            section.section(s, e)
        return s

    # ------------------------------------------------------------ frames
    @staticmethod
    def frame(xa, xb, v):
        x = (xb - xa) / np.linalg.norm(xb - xa)
        y = v - (v @ x) * x
        return x, y / np.linalg.norm(y)

    def want(self, s, e):
        return self.frame(s.nodes[e.nodes[0]], s.nodes[e.nodes[1]], e.orient)

    @staticmethod
    def sine(s, e):
        x = s.nodes[e.nodes[1]] - s.nodes[e.nodes[0]]
        return np.linalg.norm(np.cross(x, e.orient)) / np.linalg.norm(x) / np.linalg.norm(e.orient)

    def digits(self, s, e):
        """what the digits of a Nastran field allow"""
        n = e.nodes[0]
        cs, t = s.cs[s.cd[n]], 1e-3
        if cs.kind != "R":
            l = cs.A.T @ (s.nodes[n] - cs.o)
            t += 5e-4 * np.linalg.norm(l) / np.hypot(l[0], l[1])
        return t / self.sine(s, e)

    @staticmethod
    def same(a, b, tol=1e-6):
        return all(np.abs(p - q).max() < tol for p, q in zip(a, b))

    def compare(self, case, s, o):
        t = case["target"]
        try:
            f = {"ASTER": self.aster, "SYSTUS": self.systus}.get(t, self.nastran)(case, s, o)
        except OutputInvalid as e:
            f = ["output: %s" % e]
        tags = self.tags(case, s) + case.get("gtags", [])
        bars = [e for e in s.elems.values() if e.orient is not None]
        offs = [e for e in s.elems.values() if e.orient is None and section.section(s, e).get("offset")]
        tags += ["cd:" + s.cs[s.cd[e.nodes[0]]].kind for e in bars if s.cd[e.nodes[0]]] + ["offset:" + s.properties[e.pid][0] for e in offs]
        tags += ["nsm" for e in s.elems.values() if s.nsm(e)]
        ax = {tuple(np.round(self.want(s, e)[1], 6)) for e in bars}
        return engine.Outcome(f, tags, len(ax) > 1 or bool(offs))

    # ------------------------------------------------------------ Code_Aster
    def aster(self, case, s, o):
        a = aster.Aster(o)
        f = list(a.match(s))
        a.match_cells(s)
        A = section.AsterSections(a)
        X = [np.array(p) for p in a.mesh.coords]
        groups = {}
        for e in s.elems.values():
            groups.setdefault((e.topo, frozenset(e.nodes)), []).append(e)
        for (topo, ns), es in groups.items():
            cells = {c for e in es for c in a.celldup.get(e.eid, ())}
            have = []
            for c in sorted(cells):
                g = A.section(c)
                if isinstance(g, str):
                    f.append(g)
                    continue
                if g["kind"] == "beam":
                    n = a.mesh.cells[c][1]
                    fr = []
                    for cara, v in A.vecty.get(c, ()):
                        if cara == "VECT_Y":
                            fr.append(self.frame(X[n[0]], X[n[1]], np.array(v)))
                        else:
                            f.append("orientation: of cell %d given by %s" % (c, cara))
                    if not fr or any(not self.same(fr[0], q) for q in fr):
                        f.append("orientation: cell %d (elements %s) has %d orientations" % (c, [e.eid for e in es], len(fr)))
                        continue
                    g["frame"] = fr[0]
                have.append((c, g))
            for e in es:
                w = section.section(s, e)
                for twin in [False] + [True] * bool(w["nsm"]):
                    k = [i for i, (c, g) in enumerate(have) if self.fits(s, e, w, g, twin)]
                    if k:
                        have.pop(k[0])
                    else:
                        f.append("%s: %s%s %d (%s) should have %s; the cells left have %s" % (
                            "orientation" if e.orient is not None else "offset", "the mass of " if twin else "", e.card, e.eid, e.nodes,
                            "y axis %s" % np.round(self.want(s, e)[1], 6) if e.orient is not None else "offset %s" % w.get("offset"),
                            [np.round(g["frame"][1], 6).tolist() if "frame" in g else g.get("offset") for _, g in have]))
            if have and not f:
                f.append("elements: %d cells too many on %s" % (len(have), sorted(ns)))
        return f

    def fits(self, s, e, w, g, twin):
        if twin:
            m = g.get("mat", {})
            if m.get("kind") != "ISO" or m["E"] != 0 or not m["RHO"]:
                return False
            d = section.diff(dict(w, mat=m), g, 1e-8)
        else:
            d = section.diff(w, g, 1e-8)
        if d:
            return False
        if e.orient is not None:
            return "frame" in g and self.same(self.want(s, e), g["frame"])
        return abs(w.get("offset", 0.) - g.get("offset", 0.)) < 1e-9

    # ------------------------------------------------------------ Systus
    def systus(self, case, s, o):
        f = []
        ascs = [systus.Asc(o.files[n].decode("latin-1")) for n in sorted(o.files) if n.endswith(".ASC")]
        if not ascs:
            return ["no-output: no ASC file"]
        for a in ascs:
            el = {x[0]: x for x in a.elems}
            extra = [x for x in a.elems if x[0] not in s.elems]
            got = {}
            for e in s.elems.values():
                x = el.get(e.eid)
                if x is None:
                    f.append("element: %d is missing" % e.eid)
                    continue
                fr = self.sys_frame(a, x)
                if fr is None or not self.same(self.want(s, e), fr, 2e-5):
                    f.append("orientation: %s %d (%s) should have y axis %s, has %s" % (
                        e.card, e.eid, e.nodes, np.round(self.want(s, e)[1], 6), fr and np.round(fr[1], 6)))
                if s.nsm(e):
                    k = [i for i, y in enumerate(extra) if y[7] == x[7] and (lambda q: q is not None and self.same(self.want(s, e), q, 2e-5))(self.sys_frame(a, y))]
                    if k:
                        extra.pop(k[0])
                    else:
                        f.append("orientation: the mass of %s %d has no element along its axes" % (e.card, e.eid))
        return f

    def sys_frame(self, a, x):
        ang = x[6] or [0., 0., 0.]
        if len(ang) != 3 or ang[0] or ang[1]:
            return None
        p, q = (np.array(a.nodes[n][4]) for n in x[7])
        ex = (q - p) / np.linalg.norm(q - p)
        y = np.cross([0, 0, 1.], ex)
        y = y / np.linalg.norm(y) if np.linalg.norm(y) > 1e-6 else np.array([0, 1., 0])
        z = np.cross(ex, y)
        return ex, np.cos(ang[2]) * y + np.sin(ang[2]) * z

    # ------------------------------------------------------------ Nastran
    def nastran(self, case, s, o):
        f = []
        s2 = read_nas(o)
        for e in s.elems.values():
            g = s2.elems.get(e.eid)
            if g is None:
                f.append("element: %d is missing" % e.eid)
            elif e.orient is not None:
                if g.orient is None:
                    f.append("orientation: %s %d lost" % (e.card, e.eid))
                elif not self.same(self.want(s, e), self.frame(*(s2.nodes[n] for n in g.nodes), g.orient), self.digits(s, e)):
                    f.append("orientation: %s %d (%s) should have y axis %s, has %s" % (
                        e.card, e.eid, e.nodes, np.round(self.want(s, e)[1], 6),
                        np.round(self.frame(*(s2.nodes[n] for n in g.nodes), g.orient)[1], 6)))
            elif not section.near(e.zoffs, g.zoffs, 1e-3, 1e-9):
                f.append("offset: of %s %d should be %s, is %s" % (e.card, e.eid, e.zoffs, g.zoffs))
        return f


gen_shells = {"CTRIA3", "CTRIAR", "CTRIA6", "CQUAD4", "CQUADR", "CQUAD8"}

if __name__ == "__main__":
    sys.exit(engine.run(C06()))
