"""C05: cross-sections, thicknesses, lay-ups and materials keep their values."""
import sys
from vlib import aster, engine, gen, section, systus
from vlib.deckcheck import DeckCheck, read_nas, OutputInvalid
from vlib.gen import logsig, sig
from vlib.sem import Invalid


class G(gen.B):
    """the base generator with every way of giving a material or a section"""

    def mat1(self, mid=None, rho=True):
        r = self.rng
        mid = mid or self.id("mat")
        e, nu = logsig(r, 1e3, 5e11), sig(r, 0.01, 0.45)
        g = None
        form = r.choice(["E_nu", "E_G", "G_nu", "E_G_nu", "E", "G", "E_negnu", "E_G_any", "E_nu0", "small", "G_nu"])
        if form == "E_G":
            g, nu = float("%.3g" % (e / r.choice([2.2, 2.6, 2.9]))), None
        elif form == "G_nu":
            g, e = float("%.3g" % (e / 2.6)), None
        elif form == "E_G_nu":
            g = float("%.3g" % (e / (2 * (1 + nu))))
        elif form == "E":
            nu = None
        elif form == "G":
            g, e, nu = float("%.3g" % (e / 2.6)), None, None
        elif form == "E_negnu":
            nu = -nu
        elif form == "E_G_any":
            g, nu = float("%.3g" % (e / r.choice([1.5, 2.1, 2.5]))), None       # nu may be negative
        elif form == "E_nu0":
            nu = 0.
        elif form == "small":
            e = logsig(r, 1e-3, 1e3)
        self.tags.add("mat:" + form)
        self.add("MAT1", mid, e, g, nu, logsig(r, 1e-9, 1e4) if r.random() < .7 else r.choice([None, 0.]),
                 logsig(r, 1e-6, 1e-4) if r.random() < .3 else None, sig(r, 1, 300) if r.random() < .2 else None,
                 sig(r, .001, .1) if r.random() < .3 else None)
        self.mats.append(mid)
        return mid

    def mat8(self):
        mid = gen.B.mat8(self)
        r, c = self.rng, self.cards[-1]
        if r.random() < .3:
            c += [None] * (9 - len(c)) + [sig(r, 1e-6, 1e-4) if r.random() < .5 else None for _ in range(2)] + [None] + \
                 [logsig(r, 10, 1e6) if r.random() < .7 else None for _ in range(5)]
        return mid

    def pcomp(self):
        r = self.rng
        pid = self.id("prop")
        c = ["PCOMP", pid, sig(r, -3, 3) if r.random() < .4 else None, None, None, None, None, None, r.choice([None, None, "SYM"])]
        ms = [self.mat8() if r.random() < .6 else self.mat() for _ in range(r.randint(1, 3))]
        for k in range(r.randint(1, 6)):
            m, t, th = r.choice(ms), logsig(r, .01, 5), r.choice([0., 45., 90., -45., 30., sig(r, -89, 89)])
            if k:
                m, t = (None if r.random() < .25 else m), (None if r.random() < .25 else t)
            if r.random() < .25:
                th = None
            if m is None and t is None and th is None:
                th = 90.
            c += [m, t, th, r.choice([None, None, "YES", "NO"])]
        while c[-1] is None:
            c.pop()
        if c[8] == "SYM":
            self.tags.add("pcomp:SYM")
        self.cards.append(c)
        return pid

    def psolid(self):
        r = self.rng
        if self.target == "ASTER" and r.random() < .2:
            pid, mid = self.id("prop"), self.id("mat")
            c = ["MATHP", mid, sig(r, .1, 100), sig(r, .01, 10) if r.random() < .7 else None, logsig(r, 10, 1e5) if r.random() < .6 else None,
                 logsig(r, 1e-9, 1e3) if r.random() < .6 else None]
            if r.random() < .4:
                c += [None] * (17 - len(c)) + [sig(r, .1, 10)]
                c[10] = r.choice([None, 1, 2])
            self.cards.append(c)
            self.add("PLSOLID", pid, mid)
            self.tags.add("mat:MATHP")
            return pid
        if r.random() < .15:
            pid = self.id("prop")
            self.add("PIHEX", pid, self.mat())
            self.tags.add("pihex")
            self.pihex.add(pid)
            return pid
        return gen.B.psolid(self)

    def solid(self, pid=None, kind=None):
        if kind is None and pid in self.pihex:
            kind = self.rng.choice([("CIHEX1", "HEXA8"), ("CIHEX2", "HEXA20"), ("CHEXA", "HEXA8")])
        return gen.B.solid(self, pid, kind)

    def pbar(self):
        r = self.rng
        pid = gen.B.pbar(self)
        c = self.cards[-1]
        if r.random() < .4:
            c += [None] * (17 - len(c))
            del c[17:]
            c += [r.choice([None, 0., sig(r, .2, 1.)]), r.choice([None, 0., sig(r, .2, 1.)])]
        if r.random() < .15:
            k = r.choice([4, 5, 6])
            c[k] = r.choice([None, 0.])
            self.tags.add("pbar:zero")
        return pid

    def pbarl(self, card=None):
        pid = gen.B.pbarl(self, card)
        if self.rng.random() < .25:
            self.cards[-1].append(logsig(self.rng, .01, 10))
        self.tags.add("shape:" + self.cards[-1][4])
        return pid

    def pbeam(self):
        pid = gen.B.pbeam(self)
        if self.rng.random() < .2:
            self.cards[-1].append(logsig(self.rng, .01, 10))
        return pid

    def prod(self):
        pid = gen.B.prod(self)
        if self.rng.random() < .25:
            self.cards[-1] += [None, logsig(self.rng, .01, 10)]
        return pid

    def rod(self, pid=None):
        e = gen.B.rod(self, pid)
        c = self.cards[-1]
        if c[0] == "CONROD" and self.rng.random() < .3:
            c += [None, logsig(self.rng, .01, 10)]
        return e


class C05(DeckCheck):
    prop = "C05"
    rule = ("Decks with 1-15 elements of every supported family, sharing or not their properties and materials; MAT1 with any admissible "
            "combination of E, G, NU (negative and zero too), MAT8, MATHP, PSHELL, PCOMP (defaults, symmetric lay-ups), PSOLID, PLSOLID, PIHEX, PBAR "
            "(zero or blank constants and shear factors), PBARL/PBEAML BAR ROD TUBE I, PBEAM, PROD, CONROD, non-structural mass and PARAM WTMASS, "
            "sent to Code_Aster, Systus or Nastran (both dialects). Non-trivial: at least two elements with different sections, a composite or an nsm.")
    assumptions = ["shear factors of library sections and of PBEAM, thermal expansion of MAT1 are not compared",
                   "Systus has no composite, tube or hyperelastic section here; Nastran output no composite, MAT8 or MATHP: those decks go to Code_Aster",
                   "an isotropic ply may be written as an orthotropic one with equal constants",
                   "Nastran output is compared within the digits its fields hold"]
    quick_n, thorough_n = 6000, 120000
    targets = ("ASTER", "ASTER", "ASTER", "SYSTUS", "NASTRAN", "COSMIC")

    def gen(self, r):
        b = G(r)
        b.pihex = set()
        t = r.choice(self.targets)
        b.target = t
        b.elements(r.choice([1, 2, 4, 8, 15]))
        for c in b.cards:
            if c[0] == "PSHELL" and r.random() < .1:
                c += [None] * (9 - len(c))
                c[8] = logsig(r, .01, 10)
        if r.random() < .25:
            b.add("PARAM", "WTMASS", logsig(r, 1e-4, 10))
        r.shuffle(b.cards)
        return {"deck": b.deck(), "target": t, "gtags": sorted(b.tags)}

    def sem(self, case):
        s = DeckCheck.sem(self, case)
        for c in s.by.get("PARAM", ()):
            if len(c) < 3 or not isinstance(c[2], float) or not c[2] > 0:
                raise Invalid("WTMASS")
        for e in s.elems.values():
            section.section(s, e)
            fam = {"T": "2", "Q": "2", "S": "1"}.get(e.topo[0], "3")
            p = "PROD" if e.card == "CONROD" else s.properties[e.pid][0]
            if e.topo.startswith("TETRA"):
                fam = "3"
            ok = {"PSHELL": "2", "PCOMP": "2", "PSOLID": "3", "PLSOLID": "3", "PIHEX": "3"}.get(p, "1")
            if ok != fam or (p == "PROD") != (e.card in ("CROD", "CONROD")):
                raise Invalid("property of another family")
            m = [s.materials[s.properties[e.pid][2]]] if e.card != "CONROD" and p != "PCOMP" else []
            if any(x[0] == "MATHP" for x in m) and p != "PLSOLID" or any(x[0] == "MAT8" for x in m) or \
                    p == "PLSOLID" and m[0][0] != "MATHP":
                raise Invalid("material of another family")
            if p == "PCOMP" and any(s.materials[x][0] == "MATHP" for x in s.properties[e.pid][9::4] if x is not None):
                raise Invalid("material of another family")
            if p == "PBEAML" and e.card != "CBEAM" or p == "PBARL" and e.card != "CBAR" or p == "PBAR" and e.card != "CBAR" or \
                    p == "PBEAM" and e.card != "CBEAM":
                raise Invalid("property of another family")
        if case["target"] == "SYSTUS" and not set(self.pids(s, s.properties)) <= {e.pid for e in s.elems.values()}:
            raise Invalid("unused property")
        return s

    @staticmethod
    def pids(s, ps):
        return list(ps)

    def compare(self, case, s, o):
        t = case["target"]
        try:
            f = {"ASTER": self.aster, "SYSTUS": self.systus}.get(t, self.nastran)(case, s, o)
        except OutputInvalid as e:
            f = ["output: %s" % e]
        secs = [section.section(s, e) for e in s.elems.values()]
        tags = self.tags(case, s) + ["section:" + x["kind"] for x in secs] + ["nsm" for x in secs if x["nsm"]] + case.get("gtags", [])
        tags += ["wtmass"] if "PARAM" in s.by else []
        nt = len({repr(x) for x in secs}) > 1 or any(x["kind"] == "composite" or x["nsm"] for x in secs)
        return engine.Outcome(f, tags, nt)

    @staticmethod
    def say(e, ds):
        return ["value: %s of %s %d should be %s, is %s" % (k, e.card, e.eid, w, g) for k, w, g in ds]

    # ------------------------------------------------------------ Code_Aster
    def aster(self, case, s, o):
        a = aster.Aster(o)
        f = list(a.match(s))
        a.match_cells(s)
        A = section.AsterSections(a)
        for e in s.elems.values():
            want = section.section(s, e)
            cs = sorted(a.celldup.get(e.eid, ()))
            if len(cs) != 1 + bool(want["nsm"]):
                f.append("nsm: %s %d is written as %d elements" % (e.card, e.eid, len(cs)))
                continue
            got = [A.section(x) for x in cs]
            bad = [g for g in got if isinstance(g, str)]
            if bad:
                f += bad
                continue
            best = None
            for i in range(len(got)):
                fi = self.say(e, section.diff(want, got[i], 1e-8))
                if not section.MODS[want["kind"]](got[i]["mod"]):
                    fi.append("modelling: %s %d is modelled as %s" % (e.card, e.eid, got[i]["mod"]))
                if want["kind"] == "composite" and got[i]["ncou"] != len(want["plies"]):
                    fi.append("value: number of layers of %s %d should be %d, is %s" % (e.card, e.eid, len(want["plies"]), got[i]["ncou"]))
                for j in range(len(got)):
                    if j != i:
                        fi += self.twin(e, want, got[j])
                best = fi if best is None or len(fi) < len(best) else best
            f += best
        return f

    def twin(self, e, want, g):
        m = g["mat"]
        size = g.get("T") if want["kind"] == "shell" else g.get("A")
        out = []
        if g["kind"] != want["kind"] or m["kind"] != "ISO" or m["E"] != 0:
            out.append("nsm: the second element of %s %d is stiff: %s" % (e.card, e.eid, g))
        elif not section.near(m["RHO"] * size, want["nsm"], 1e-8):
            out.append("nsm: of %s %d should be %s, is %s" % (e.card, e.eid, want["nsm"], m["RHO"] * size))
        return out

    # ------------------------------------------------------------ Systus
    def systus(self, case, s, o):
        f = []
        ascs = [systus.Asc(o.files[n].decode("latin-1")) for n in sorted(o.files) if n.endswith(".ASC")]
        if not ascs:
            return ["no-output: no ASC file"]
        for a in ascs:
            el = {x[0]: x for x in a.elems}
            by = {}
            for x in a.elems:
                by.setdefault(frozenset(x[7]), []).append(x[0])
            for e in s.elems.values():
                want = section.section(s, e)
                if e.eid not in el:
                    f.append("element: %d is missing" % e.eid)
                    continue
                f += self.say(e, self.sys_diff(want, a.materials[el[e.eid][4]]))
                tw = [x for x in by[frozenset(el[e.eid][7])] if x not in s.elems]
                if len(tw) != bool(want["nsm"]):
                    f.append("nsm: %s %d has %d additional elements" % (e.card, e.eid, len(tw)))
                for x in tw:
                    m = a.materials[el[x][4]]
                    size = m.get(21 if want["kind"] == "shell" else 11, 0.)
                    if m.get(5, 0.) != 0. or not section.near(m.get(4, 0.) * size, want["nsm"], 1e-8):
                        f.append("nsm: of %s %d should be %s, is %s" % (e.card, e.eid, want["nsm"], m))
        return f

    @staticmethod
    def sys_diff(want, m):
        w = {}
        iso = want["mat"]
        w[4], w[5], w[6] = iso["RHO"], iso["E"], iso["NU"]
        if iso["GE"] is not None:
            w[35] = 2 * iso["GE"]
        if want["kind"] == "shell":
            w[21] = want["T"]
        elif want["kind"] in ("beam", "rod"):
            w[11] = want["A"]
            if want["kind"] == "beam":
                w[14], w[15], w[16] = want["J"], want["IY"], want["IZ"]
        name = {4: "RHO", 5: "E", 6: "NU", 35: "ALPHA", 21: "thickness", 11: "area", 14: "IX", 15: "IY", 16: "IZ"}
        out = []
        for k in name:
            if k not in w and k in (14, 15, 16, 21, 11):
                continue
            a, b = w.get(k), m.get(k)
            if k != 35:
                a, b = a or 0., b or 0.
            if k == 14 and a <= b <= want.get("Jmax", 0.) * (1 + 1e-8):
                continue
            if not section.near(a, b, 1e-8, 1e-15):
                out.append((name[k], a, b))
        return out

    # ------------------------------------------------------------ Nastran
    def nastran(self, case, s, o):
        f = []
        s2 = read_nas(o)
        tets = {i: e for i, e in s2.elems.items() if case["target"] == "COSMIC" and e.card == "CTETRA"}
        for i in tets:
            del s2.elems[i]
        try:
            s2.props()
        except Invalid as e:
            return ["output: written deck: %s" % e]
        for e in s.elems.values():
            want = section.section(s, e)
            if e.eid in tets:
                m = tets[e.eid].pid
                if m not in s2.materials:
                    f.append("material: %d of CTETRA %d is missing" % (m, e.eid))
                    continue
                got = {"kind": "solid", "mat": section.mat(s2, m), "nsm": 0.}
            elif e.eid not in s2.elems:
                f.append("element: %d is missing" % e.eid)
                continue
            else:
                got = section.section(s2, s2.elems[e.eid], 1.)
                if case["target"] != "COSMIC":
                    got.pop("AY", None), got.pop("AZ", None)
            if want["kind"] == "beam" and s.properties[e.pid][0] != "PBAR":
                got.pop("AY", None), got.pop("AZ", None)
            f += self.say(e, section.diff(want, got, 1.2e-3))
            if not section.near(want["nsm"], got["nsm"], 1.2e-3):
                f.append("nsm: of %s %d should be %s, is %s" % (e.card, e.eid, want["nsm"], got["nsm"]))
        return f


if __name__ == "__main__":
    sys.exit(engine.run(C05()))
