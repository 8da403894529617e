"""Analyses of a deck and what they select: case control generation (WC) and comparison with the outputs (Cases)."""
import math, re
import numpy as np
from . import analysis, comm, deckcheck, kin, outputs, wide
from .analysis import Loads
from .comm import Concept, Expr, ModeList, tup
from .gen import sig
from .outputs import Mismatch
from .sem import F, R, Invalid

FEATS = ("solid", "shell", "bar", "spring", "mass", "ps", "mpc", "spcadd", "force", "moment", "grav", "loadcomb", "nested", "multi")
SOLS = {"ASTER": (101, 101, 103, 105, 106, 108, 111, 111, 200), "SYSTUS": (101, 101, 103, 111, 200), "NASTRAN": (101, 103), "COSMIC": (101, 103)}
NAMES = {101: ("SESTATIC", "SESTATICS", "STATICS"), 103: ("SEMODES", "MODES"), 105: ("SEBUCKL", "BUCKL"), 106: ("NLSTATIC",), 108: ("SEDFREQ",),
         111: ("SEMFREQ",), 200: ("DESOPT",)}
TYPE = {"101": "STATIC", "SESTATIC": "STATIC", "SESTATICS": "STATIC", "STATICS": "STATIC", "STATIC": "STATIC", "1": "STATIC",
        "103": "MODES", "SEMODES": "MODES", "MODES": "MODES", "3": "MODES", "105": "BUCKL", "SEBUCKL": "BUCKL", "BUCKL": "BUCKL", "BUCK": "BUCKL",
        "106": "NLSTATIC", "NLSTATIC": "NLSTATIC", "108": "DFREQ", "SEDFREQ": "DFREQ", "DFREQ": "DFREQ", "111": "MFREQ", "SEMFREQ": "MFREQ", "MFREQ": "MFREQ",
        "200": "DESOPT", "DESOPT": "DESOPT"}
NEEDS = {"STATIC": ("LOAD", "SPC"), "MODES": ("METHOD", "SPC"), "BUCKL": ("METHOD", "SPC"), "NLSTATIC": ("NLPARM", "LOAD", "SPC"),
         "DFREQ": ("FREQ", "DLOAD", "SPC"), "MFREQ": ("METHOD", "FREQ", "DLOAD", "SDAMPING", "SPC")}
NOISE = ("DISPLACEMENT = ALL", "DISP(PLOT) = ALL", "ECHO = NONE", "SPCFORCES(PRINT)=ALL", "SPCFORCES = 5", "MPCFORCES=ALL", "MPCFORCE = 3", "OLOAD = ALL",
         "$ a comment", "SUBTITLE = words of it", "$", "LINE = 50", "FORCE = NONE", "ESE = ALL", "GPFORCE = 7")


class WC(wide.W):
    """decks whose case control is generated with inheritance, overriding and other commands around"""

    def __init__(self, rng, target, sols, rich=False, p=.35):
        super().__init__(rng, target, FEATS, sols, p)
        self.rich = rich
        self.pool = {}
        self.buckling = self.bands = False

    # ------------------------------------------------------------ what is selected
    def make(self, k):
        r = self.rng
        have = self.pool.setdefault(k, [])
        if have and r.random() < .4:
            return r.choice(have)
        v = {"LOAD": self.load, "SPC": self.support, "MPC": self.mpc_set, "METHOD": self.eigrl, "FREQ": self.freq, "DLOAD": self.dload,
             "SDAMPING": self.damping, "NLPARM": self.nlparm}[k]()
        have.append(v)
        return v

    def nlparm(self):
        sid = self.id("nlparm")
        self.add("NLPARM", sid, *([self.rng.randint(1, 25)] if self.rng.random() < .8 else []))
        return sid

    def eigrl(self):
        r = self.rng
        sid = self.id("method")
        band = r.random() < .4 and not self.buckling
        v1 = r.choice([None, 0., sig(r, .1, 5)]) if band else r.choice([None, None, 0.])
        v2 = sig(r, 10, 1500) if band or r.random() < .25 else None
        nd = None if band else r.randint(1, 30)
        self.bands = self.bands or v2 is not None
        if band and v1 is None and self.target == "NASTRAN":
            v1 = 0.
        norm = r.choice([None, "MASS", "MAX"])
        if r.random() < .3:
            self.add("EIGR", sid, "LAN", v1, v2, None, nd, None, None, norm)
        else:
            self.add("EIGRL", sid, v1, v2, nd, None, None, None, norm)
        return sid

    def xy(self, n, x0, lo, hi, ylo, yhi):
        r = self.rng
        out, x = [], x0
        for _ in range(n):
            out += [float("%.5g" % x), r.choice([1, 1, -1] if ylo < 0 else [1]) * sig(r, abs(ylo), yhi, 3)]
            x += sig(r, lo, hi, 2)
        return out

    def damping(self):
        r = self.rng
        tid = self.id("table")
        t = r.choice(["CRIT", "G", None] + ([] if self.target == "ASTER" else ["Q"]))
        y = (.005, .12) if t != "Q" else (5., 60.)
        v = self.xy(r.randint(2, 6), 0., 20, 400, *y)
        v[-2] = max(v[-2], 2000.)
        if self.target == "SYSTUS":
            v[3::2] = [v[1]] * len(v[3::2])
        self.add("TABDMP1", tid, t, None, None, None, None, None, None, *v, "ENDT")
        return tid

    def table(self):
        r = self.rng
        tid = self.id("table")
        v = self.xy(r.randint(2, 7), 0., 1, 120, -.2, 9.)
        if self.rng.random() < .3 and len(v) > 4:
            k = r.randrange(2, len(v) - 2, 2)           # a pair that is skipped
            v[k:k + 2] = ["SKIP", "SKIP"]
        lin = r.choice([None, None, "LINEAR"])
        self.add("TABLED1", tid, lin, r.choice([None, lin]), None, None, None, None, None, *v, "ENDT")
        return tid

    def freq(self):
        r = self.rng
        sid = self.id("freq")
        kinds = ["FREQ1"] if self.target == "SYSTUS" else ["FREQ", "FREQ1", "FREQ1"] + (["FREQ3"] if self.kind == "MFREQ" else [])
        k = r.choice(kinds)
        if k == "FREQ":
            self.add("FREQ", sid, *sorted({sig(r, 1, 500) for _ in range(r.randint(1, 12))}))
        elif k == "FREQ1":
            n = r.choice([None, 1, 2, r.randint(3, 40)])
            self.add("FREQ1", sid, sig(r, 1, 20, 2), sig(r, .5, 10, 2), *([n] if n else []))
        else:
            a = sig(r, 1, 60, 2)
            n = r.choice([None, 2, 3, r.randint(4, 12)])
            self.add("FREQ3", sid, a, float("%.5g" % (a + sig(r, 5, 900, 2))), *([None, n] if n else []))
        return sid

    def excitation(self):
        r = self.rng
        darea = self.id("loadset")
        for n in r.sample(self.nodes, min(len(self.nodes), r.choice([1, 2, 3]))):
            self.add("DAREA", darea, n, r.choice([1, 2, 3] if self.target == "SYSTUS" else [1, 2, 3, 4, 5, 6]), sig(r, .5, 50, 2))
        return darea

    def rload(self):
        r = self.rng
        sid = self.id("loadset")
        ph = None
        if self.target == "ASTER" and r.random() < .5:
            ph = sig(r, 5, 300, 3) * r.choice([1, -1])
            if r.random() < .5:
                pid = self.id("dphase")
                self.add("DPHASE", pid, None, None, ph)
                ph = pid
        typ = r.choice([None, None, "LOAD", "L", 0])
        self.add(r.choice(["RLOAD1", "RLOAD2"]), sid, self.excitation(), None, ph, self.table(), *([None, typ] if typ is not None else []))
        return sid

    def dload(self):
        r = self.rng
        if r.random() < .5:
            return self.rload()
        n = 1 if self.target == "SYSTUS" else r.choice([1, 1, 2, 3])
        parts = [self.rload() for _ in range(n)]
        sid = self.id("loadset")
        c = ["DLOAD", sid, r.choice([1., 1., 2.5, .5])]
        for q in parts:
            c += [r.choice([1., 2., -1.5, .25]), q]
        self.add(*c)
        return sid

    # ------------------------------------------------------------ case control
    def noise(self, ind=""):
        r = self.rng
        while r.random() < .25:
            self.cc.append(ind + r.choice(NOISE))

    def put(self, k, v, ind=""):
        r = self.rng
        s = self.assign(k, v) if k != "ANALYSIS" else "%s = %s" % (k, v)
        if k == "FREQ" and r.random() < .4:
            s = s.replace("FREQ", "FREQUENCY")
        if k not in ("LABEL", "ANALYSIS") and r.random() < .15:
            s = s.lower()
        if r.random() < .12:
            s += r.choice([" $ selects it", "   $"])
        self.cc.append(ind + s.strip() if ind else s)
        self.noise(ind)

    def build(self):
        r = self.rng
        self.kind = None
        self.mesh()
        sol = self.sol = r.choice(self.sols)
        self.exec = [r.choice(["SOL %s" % sol] * 3 + ["SOL %s" % r.choice(NAMES[sol]), "SOL  %s" % sol]), "CEND"]
        self.title()
        n = r.choice([1, 2, 2, 3, 4, 6]) if sol != 200 else r.choice([2, 3, 4])
        if sol == 105:
            n = max(n, 2)
        kinds = {101: ["STATIC"], 103: ["MODES"], 106: ["NLSTATIC"], 108: ["DFREQ"], 111: ["MFREQ"]}.get(sol, [None]) * n
        if sol == 105:
            kinds = ["STATIC"] + ["BUCKL"] * (n - 1)
        if sol == 200:
            kinds = ["STATIC"] + [r.choice(["STATIC", "MODES"] + (["BUCKL", "DFREQ", "MFREQ"] if self.target == "ASTER" else [])) for _ in range(n - 1)]
        self.buckling = "BUCKL" in kinds
        self.kind = "MFREQ" if set(kinds) & {"MFREQ"} and "DFREQ" not in kinds else None
        keys = sorted({k for t in kinds for k in NEEDS[t]})
        if self.on("mpc") and r.random() < .6:
            keys.append("MPC")
        # MPC, SDAMPING and SPC are optional
        explicit = n > 1 or r.random() < .6 or sol == 200
        glob = {k: self.make(k) for k in r.sample(keys, len(keys)) if r.random() < (.55 if explicit else 1.) and (k != "DLOAD" or sol != 200)}
        if not explicit:
            glob = {k: v for k, v in glob.items() if k not in ("SDAMPING", "SPC") or r.random() < .8}
        self.noise()
        for k, v in glob.items():
            self.put(k, v)
        if explicit:
            ids = sorted(r.sample(range(1, 90), n)) if r.random() < .6 else list(range(1, n + 1))
            statics = []
            for i, t in zip(ids, kinds):
                self.cc.append(r.choice(["SUBCASE %d", "SUBCASE %d", "SUBCASE = %d", "subcase %d"]) % i)
                self.noise("  ")
                if r.random() < .35:
                    self.put("LABEL", r.choice(["CASE %d", "case_%d", "L%d"]) % i, "  ")
                if sol == 200:
                    self.put("ANALYSIS", {"STATIC": "STATICS", "BUCKL": r.choice(["BUCK", "BUCKL"])}.get(t, t), "  ")
                ks = list(NEEDS[t]) + (["MPC"] if "MPC" in keys else [])
                r.shuffle(ks)
                for k in ks:
                    opt = k in ("MPC", "SDAMPING", "SPC")
                    if k not in glob and (not opt or r.random() < .8) or k in glob and r.random() < .3:
                        self.put(k, self.make(k), "  ")
                if t == "BUCKL" and r.random() < .4 or t == "BUCKL" and sol == 200:
                    self.put("STATSUB", r.choice(statics), "  ")
                if t == "STATIC":
                    statics.append(i)
            if self.target != "SYSTUS" and sol == 101:
                for _ in range(r.choice([0, 0, 1, 2])):
                    self.cc.append("SUBCOM %d" % (ids[-1] + 1))
                    ids.append(ids[-1] + 1)
                    if r.random() < .5:
                        self.cc.append("  LABEL = COMB%d" % ids[-1])
                    self.cc.append("  SUBSEQ = " + r.choice([",", ", "]).join(r.choice(["1.0", "-1.", "0.5", "2.25", "-.75", "3."]) for _ in range(n)))
        self.tags.add("sol:%s" % sol)
        self.tags.add("subcases:%d" % (n if explicit else 0))
        if r.random() < .6:
            r.shuffle(self.cards)
        return self


# ---------------------------------------------------------------- what the deck says
def deck_cases(deck):
    """[Case] with "type"; combinations have type COMBINATION and "coefs": [(position of the case, coefficient)]"""
    lines, sub = [], None
    out, combos = [], []
    cc = deck.get("cc", ())
    main = []
    for ln in cc:
        w = ln.split("$")[0].replace("=", " ").split()
        if w and w[0].upper() == "SUBCOM":
            sub = {"id": int(w[1])}
            combos.append(sub)
        elif w and w[0].upper() == "SUBCASE":
            if combos:
                raise Invalid("SUBCASE after SUBCOM")
            main.append(ln)
        elif sub is not None:
            if w and w[0].upper() == "LABEL":
                sub["LABEL"] = ln.split("=", 1)[1].strip()
            elif w and w[0].upper() == "SUBSEQ":
                sub["coefs"] = [float(x) for x in ln.split("$")[0].split("=", 1)[1].replace(",", " ").split()]
        else:
            main.append(ln)
    cs = analysis.cases(dict(deck, cc=main))
    seen = False
    for c in cs:
        t = TYPE.get(c["sol"])
        if t is None:
            raise Invalid("SOL %s" % c["sol"])
        if t == "DESOPT":
            t = TYPE.get(c.get("ANALYSIS"))
        elif t == "BUCKL" and not seen:
            t = "STATIC"
        if t is None or any(k not in c for k in NEEDS[t] if k not in ("SPC", "SDAMPING")):
            raise Invalid("case %s" % c["id"])
        seen = True
        c["type"] = t
    ids = [c["id"] for c in cs] + [c["id"] for c in combos]
    if len(set(ids)) != len(ids):
        raise Invalid("subcase ids")
    for c in combos:
        co = c.pop("coefs", None)
        if not co or len(co) > len(cs):
            raise Invalid("SUBSEQ")
        k = len(cs) - len(co)
        cs_out = analysis.Case(c, type="COMBINATION", coefs={k + i: v for i, v in enumerate(co)})
        out.append(cs_out)
    return cs + out


def points(c, k0):
    out, k = [], k0
    while k < len(c):
        a = c[k]
        if a is None:
            k += 1
            continue
        if a == "ENDT":
            break
        b = c[k + 1]
        if a != "SKIP" and b != "SKIP":
            out.append((float(a), float(b)))
        k += 2
    return sorted(out)


def interp(p, x):
    """linear, extrapolated from the two points of an end"""
    if len(p) == 1:
        return p[0][1]
    k = max(1, min(len(p) - 1, next((i for i, q in enumerate(p) if q[0] > x), len(p) - 1)))
    (x0, y0), (x1, y1) = p[k - 1], p[k]
    return y0 + (y1 - y0) * (x - x0) / (x1 - x0)


class Sel:
    """the cards that analyses select"""

    def __init__(self, sem):
        self.s = sem
        by = lambda *ns: {c[1]: c for n in ns for c in sem.cards(n)}
        self.methods = by("EIGRL", "EIGR")
        self.freqs = {}
        for n in ("FREQ", "FREQ1", "FREQ3"):
            for c in sem.cards(n):
                self.freqs.setdefault(c[1], []).append(c)
        self.tabled = by("TABLED1")
        self.damp = by("TABDMP1")
        self.nl = by("NLPARM")
        self.phase = by("DPHASE")
        self.delay = by("DELAY")
        self.rloads = by("RLOAD1", "RLOAD2")
        self.dloads = by("DLOAD")
        self.darea = {}
        for c in sem.cards("DAREA"):
            for k in range(2, len(c), 3):
                self.darea.setdefault(c[1], []).append((c[k], F(c, k + 1, 123456), R(c, k + 2, 0.)))

    def get(self, d, i):
        if i not in d:
            raise Invalid("%s missing" % i)
        return d[i]

    def search(self, sid):
        """(lower, upper, number, norm)"""
        c = self.get(self.methods, sid)
        k = (2, 3, 4, 8) if c[0] == "EIGRL" else (3, 4, 6, 9)
        v1, v2 = R(c, k[0], None), R(c, k[1], None)
        nd = F(c, k[2])
        if v2 is None and nd is None:
            nd = 1
        return v1, v2, nd, F(c, k[3]) or "MASS"

    def frequencies(self, sid):
        return sorted({f for c in self.get(self.freqs, sid) for f in self.of_card(c)})

    def of_card(self, c):
        if c[0] == "FREQ":
            return sorted(float(x) for x in c[2:] if x is not None)
        if c[0] == "FREQ1":
            return [R(c, 2) + i * R(c, 3) for i in range(F(c, 4, 1) + 1)]
        a, b, n = R(c, 2), R(c, 3), F(c, 5, 10)
        ends = [a] + [x for x in comm.MODES if a < x < b] + [b]
        return sorted({float(x) for p, q in zip(ends, ends[1:]) for x in np.linspace(p, q, n)})

    def damping(self, sid, f):
        c = self.get(self.damp, sid)
        y = interp(points(c, 9), f)
        return {"CRIT": y, "G": y / 2, "Q": .5 / y if y else 0.}[F(c, 2) or "G"]

    def excitations(self, sid):
        """[(factor, table points, phase in degrees of a frequency, {node: 6-vector})]"""
        if sid in self.dloads:
            c = self.dloads[sid]
            return [(R(c, 2, 1.) * R(c, k, 1.) * f, t, p, v) for k in range(3, len(c), 2) if F(c, k + 1) is not None for f, t, p, v in self.excitations(c[k + 1])]
        c = self.get(self.rloads, sid)
        ph = F(c, 4)
        if isinstance(ph, int) and ph:
            ph = R(self.get(self.phase, ph), 4)
        tau = F(c, 3)
        if isinstance(tau, int) and tau:
            tau = R(self.get(self.delay, tau), 4)
        tp = points(self.get(self.tabled, F(c, 6)), 9) if c[0] == "RLOAD2" and isinstance(F(c, 6), int) and F(c, 6) else None
        phase = lambda f: (ph or 0.) + (interp(tp, f) if tp else 0.) - 360. * f * (tau or 0.)
        v = {}
        for n, d, a in self.get(self.darea, c[2]):
            self.s.need_nodes([n])
            for q in analysis.dofs(d):
                x = v.setdefault(n, np.zeros(6))
                T = self.s.T[n]
                o = q // 3 * 3
                x[o:o + 3] += a * T[:, q % 3]
        return [(1., points(self.get(self.tabled, F(c, 5)), 9), phase, v)]

    def response(self, sid, f):
        """complex nodal excitation at a frequency"""
        out = {}
        for k, t, p, v in self.excitations(sid):
            z = k * interp(t, f) * np.exp(1j * math.radians(p(f)))
            for n, x in v.items():
                out[n] = out.get(n, 0.) + z * x
        return out


# ---------------------------------------------------------------- what the Aster commands say
def func(c, x):
    """value of a DEFI_FONCTION and the combinations of it"""
    if isinstance(c, Concept) and c.cmd == "DEFI_CONSTANTE":
        return c.kw["VALE"]
    if not isinstance(c, Concept):
        raise Mismatch("function %r" % (c,))
    if c.cmd == "CALC_FONC_INTERP":
        return func(c.kw["FONCTION"], x)
    if c.cmd == "CALC_FONCTION":
        return sum(float(f.get("COEF", 1.)) * func(f["FONCTION"], x) for f in tup(c.kw["COMB"]))
    if c.cmd != "DEFI_FONCTION":
        raise Mismatch("function %s" % c.cmd)
    v = tup(c.kw["VALE"])
    p = sorted(zip(v[::2], v[1::2]))
    it = tup(c.kw.get("INTERPOL", ("LIN", "LIN")))
    if any(i != "LIN" for i in it):
        raise Mismatch("interpolation %s" % (it,))
    for out, side, e in ((x < p[0][0] - 1e-9 * abs(x), "PROL_GAUCHE", p[0]), (x > p[-1][0] + 1e-9 * abs(x), "PROL_DROITE", p[-1])):
        if out:
            m = c.kw.get(side, "EXCLU")
            if m == "EXCLU":
                raise Mismatch("function %s is not defined at %g" % (c.name, x))
            if m == "CONSTANT":
                return e[1]
    return interp(p, x)


def freq_list(c):
    if not isinstance(c, Concept) or c.cmd != "DEFI_LIST_REEL":
        raise Mismatch("list of frequencies %r" % (c,))
    if "VALE" in c.kw:
        return [float(x) for x in tup(c.kw["VALE"])]
    out = [float(c.kw["DEBUT"])]
    for f in tup(c.kw["INTERVALLE"]):
        a, b = out[-1], float(f["JUSQU_A"])
        if "NOMBRE" in f:
            n = int(f["NOMBRE"])
        else:
            n = int(round((b - a) / float(f["PAS"])))
            if abs(a + n * float(f["PAS"]) - b) > 1e-6 * abs(b):
                raise Mismatch("the last step of %s is another" % c.name)
        out += [a + (b - a) * (i + 1) / n for i in range(n)]
    return out


def close(a, b, tol):
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-12)


class Cases(kin.Kinematics):
    """every analysis of the output against the one of the deck"""
    what = ("kinematics", "loads")
    rich = False
    sols = None

    def gen(self, rng):
        t = rng.choice(["ASTER", "ASTER", "SYSTUS", "NASTRAN", "COSMIC"] if self.sols is None else [x for x in ("ASTER", "ASTER", "SYSTUS") if self.sols.get(x)])
        b = WC(rng, t, (self.sols or SOLS)[t], self.rich).build()
        case = {"deck": b.deck(), "target": t, "tags": sorted(b.tags)}
        if t == "SYSTUS" and b.sol == 111 and rng.random() < .3:
            case["opts"] = ["--systus.DynamicMethod=modal"]
        if t == "SYSTUS" and b.bands:       # before, the search of a band is refused with a warning
            case.setdefault("opts", []).append("--solver-version=" + rng.choice(["2017", "2018", "2019"]))
        return case

    def compare(self, case, s, o):
        from . import engine
        from .aster import AsterError
        from .comm import CommError
        from .systus import AscError
        t = case["target"]
        self.ref = ref = analysis.Ref(s)
        self.sel = Sel(s)
        cs = deck_cases(case["deck"])
        for c in cs:
            if c["type"] == "COMBINATION":
                continue
            c["sup"] = ref.supports(c, ref.enforced(c) if c["type"] in ("STATIC", "NLSTATIC") else {})
            c["eqs"] = ref.equations(c)
            c["loads"] = ref.loads(c["LOAD"]) if c["type"] in ("STATIC", "NLSTATIC") else None
            c["search"] = self.sel.search(c["METHOD"]) if c["type"] in ("MODES", "BUCKL", "MFREQ") else None
            if c["type"] in ("DFREQ", "MFREQ"):
                c["freqs"] = self.sel.frequencies(c["FREQ"])
                self.sel.response(c["DLOAD"], 1.)
                if c.get("SDAMPING"):
                    self.sel.damping(c["SDAMPING"], 1.)
            if c["type"] == "NLSTATIC":
                self.sel.get(self.sel.nl, c["NLPARM"])
        tags = self.tags(case, s) + ["cases:%d" % len(cs)] + ["type:" + c["type"] for c in cs] + list(case.get("tags", ()))
        try:
            fails = {"ASTER": self.aster, "SYSTUS": self.systus_, "NASTRAN": self.nastran, "COSMIC": self.nastran}[t](case, s, o, cs)
        except (deckcheck.OutputInvalid, Mismatch, AsterError, CommError, AscError) as e:
            fails = ["output: %s" % e]
        except Invalid as e:
            fails = ["output: written deck: %s" % e]
        return engine.Outcome(fails[:8], tags, self.nontrivial_cases(cs))

    def nontrivial_cases(self, cs):
        return len(cs) > 1 and len({tuple(sorted((k, v) for k, v in c.items() if k in analysis.KEYS and k != "LABEL")) for c in cs}) > 1

    # ------------------------------------------------------------ Aster
    def aster(self, case, s, o, cs):
        tol = 1e-6
        a = self.a = outputs.AsterOut(o, s)
        if len(a.cases) != len(cs):
            return ["cases: %d analyses in the deck, %d in the output" % (len(cs), len(a.cases))]
        rig, live = self.ref.rigids(), self.ref.live()
        fails = []
        prev = None
        for pos, (c, q) in enumerate(zip(cs, a.cases)):
            w = "case %s" % c["id"]
            if c["id"] is not None and a.ids.get(q["name"]) != c["id"]:
                fails.append("id: %s is commented as analysis %s, it is that of sub-case %s" % (q["name"], a.ids.get(q["name"]), c["id"]))
            f = getattr(self, "aster_" + c["type"])(c, q, cs, pos, tol)
            charges, f = f
            fails += ["%s (%s)" % (x, w) for x in f]
            if charges is not None:
                fails += self.one(w, "ASTER", c["sup"], c["eqs"], rig, a.relations(charges), live, c["loads"], a.loads(charges) if c["type"] == "STATIC" else None, tol) \
                    if c["type"] == "STATIC" else self.one(w, "ASTER", c["sup"], c["eqs"], rig, a.relations(charges), live, None, None, tol)
        return fails

    def cmd(self, c, *names):
        if not isinstance(c, Concept) or c.cmd not in names:
            raise Mismatch("%s instead of a result of %s" % (c, "/".join(names)))
        return c.kw

    def aster_STATIC(self, c, q, cs, pos, tol):
        if q["cmd"] != "MECA_STATIQUE":
            return None, ["type: %s for a static analysis" % q["cmd"]]
        return self.a.charges({"EXCIT": q["kw"]["EXCIT"]} if "EXCIT" in q["kw"] else {}), []

    def aster_COMBINATION(self, c, q, cs, pos, tol):
        if q["cmd"] != "CREA_RESU":
            return None, ["type: %s for a combination" % q["cmd"]]
        got = {}
        for f in tup(q["kw"]["AFFE"]):
            kw = self.cmd(f["CHAM_GD"], "CREA_CHAMP")
            if kw["OPERATION"] != "ASSE":
                raise Mismatch("combination of %s" % kw["OPERATION"])
            for g in tup(kw["ASSE"]):
                e = self.cmd(g["CHAM_GD"], "CREA_CHAMP")
                if e["OPERATION"] != "EXTR" or e["NOM_CHAM"] != "DEPL":
                    raise Mismatch("combination of %s %s" % (e["OPERATION"], e.get("NOM_CHAM")))
                n = e["RESULTAT"].name
                got[n] = got.get(n, 0.) + float(g["COEF_R"])
            break
        want = {self.a.cases[k]["name"]: v for k, v in c["coefs"].items()}
        if got != want:
            return None, ["combination: the deck combines %s, the output %s" % (want, got)]
        return None, []

    def window(self, c, kw, filt):
        v1, v2, nd, norm = c["search"]
        f = []
        lo, hi = 0., math.inf
        if kw["OPTION"] == "PLUS_PETITE":
            n = kw["CALC_FREQ"]["NMAX_FREQ"]
        elif kw["OPTION"] == "BANDE":
            n = None
            lo, hi = map(float, tup(kw["CALC_FREQ"]["FREQ"]))
        else:
            raise Mismatch("OPTION %s" % kw["OPTION"])
        if filt:
            lo, hi = max(lo, filt["FREQ_MIN"]), min(hi, filt["FREQ_MAX"])
        if hi >= 1e29:
            hi = math.inf
        want = (max(v1 or 0., 0.), math.inf if v2 is None else v2, nd)
        if not (close(lo, want[0], 1e-6) and (hi == want[1] or close(hi, want[1], 1e-6)) and n == nd):
            f.append("search: the deck asks for modes between %s and %s, at most %s; the output for %s, %s, %s" % (want + (lo, hi, n)))
        return f

    def norm(self, c, got):
        want = {"MASS": "MASS_GENE", "MAX": "TRAN_ROTA"}.get(c["search"][3])
        return [] if got == want else ["norm: %s in the deck, %s in the output" % (c["search"][3], got)]

    def modes(self, c, m):
        kw = self.cmd(m, "EXTR_MODE")
        filt = kw["FILTRE_MODE"]
        u = self.cmd(filt["MODE"], "CALC_MODES")
        nm = u.get("NORM_MODE")
        f = self.window(c, u, filt)
        norms = [k["NORME"] for n, cmd, k in self.a.a.comm.calls if cmd == "NORM_MODE" and k.get("reuse") is filt["MODE"]] or ([nm["NORME"]] if nm else [])
        f += self.norm(c, norms[-1] if norms else None)
        r = self.a.charges({"R": self.cmd(u["MATR_RIGI"], "ASSE_MATRICE")["NUME_DDL"]})
        e = self.a.charges({"R": self.cmd(u["MATR_RIGI"], "ASSE_MATRICE")["MATR_ELEM"]})
        if set(map(id, r)) != set(map(id, e)):
            f.append("matrices: charges %s in the numbering, %s in the stiffness" % (r, e))
        return r, f

    def aster_MODES(self, c, q, cs, pos, tol):
        if q["cmd"] != "EXTR_MODE":
            return None, ["type: %s for a modal analysis" % q["cmd"]]
        con = self.named(q["name"])
        return self.modes(c, con)

    def named(self, name):
        if name not in self.a.a.comm.by_name:
            raise Mismatch("%s is not a concept" % name)
        return self.a.a.comm.by_name[name]

    def aster_BUCKL(self, c, q, cs, pos, tol):
        kw = q["kw"]
        if q["cmd"] != "CALC_MODES" or "CALC_CHAR_CRIT" not in kw:
            return None, ["type: %s for a buckling analysis" % q["cmd"]]
        v1, v2, nd, norm = c["search"]
        f = []
        cc = kw["CALC_CHAR_CRIT"]
        got = (cc.get("NMAX_CHAR_CRIT"), tuple(float(x) for x in tup(cc["CHAR_CRIT"])) if "CHAR_CRIT" in cc else None)
        if nd is not None and (got[0] != nd or kw["OPTION"] != "PLUS_PETITE"):
            f.append("search: the deck asks for %s critical loads, the output for %s %s" % (nd, kw["OPTION"], got))
        if nd is None and not (kw["OPTION"] == "BANDE" and got[1] and len(got[1]) == 2):
            f.append("search: the deck asks for critical loads between %s and %s, the output for %s %s" % (v1, v2, kw["OPTION"], got))
        rig = self.cmd(kw["MATR_RIGI"], "ASSE_MATRICE")
        geo = self.cmd(self.cmd(kw["MATR_RIGI_GEOM"], "ASSE_MATRICE")["MATR_ELEM"], "CALC_MATR_ELEM")
        st = self.cmd(geo["SIEF_ELGA"], "CREA_CHAMP")["RESULTAT"].name
        want = next(k for k, x in enumerate(cs) if (x["id"] == c["STATSUB"] if "STATSUB" in c else x["type"] == "STATIC"))
        if cs[want]["type"] != "STATIC":
            raise Invalid("STATSUB")
        if st != self.a.cases[want]["name"]:
            f.append("statsub: the stresses are those of %s instead of %s" % (st, self.a.cases[want]["name"]))
        return self.a.charges({"R": rig["NUME_DDL"]}), f

    def aster_NLSTATIC(self, c, q, cs, pos, tol):
        kw = q["kw"]
        if q["cmd"] != "STAT_NON_LINE":
            return None, ["type: %s for a non linear analysis" % q["cmd"]]
        f = []
        n = F(self.sel.nl[c["NLPARM"]], 2, 10)
        lst = self.cmd(self.cmd(kw["INCREMENT"]["LIST_INST"], "DEFI_LIST_INST")["DEFI_LIST"]["LIST_INST"], "DEFI_LIST_REEL")
        t = freq_list(self.named(kw["ARCHIVAGE"]["LIST_INST"].name) if isinstance(kw["ARCHIVAGE"]["LIST_INST"], Concept) else None)
        t2 = [float(lst["DEBUT"])] + [float(x["JUSQU_A"]) for x in tup(lst["INTERVALLE"])]
        if len(t) != n + 1:
            f.append("increments: %d in the deck, %d in the output" % (n, len(t) - 1))
        before = [x for x in cs[:pos] if x["type"] == "NLSTATIC"]
        if t[0] != t2[0] or t[-1] != t2[-1]:
            f.append("increments: kept from %s to %s, computed from %s to %s" % (t[0], t[-1], t2[0], t2[-1]))
        init = kw.get("ETAT_INIT")
        wi = self.a.cases[pos - 1]["name"] if before else None
        if (init["EVOL_NOLI"].name if init else None) != wi:
            f.append("start: from %s instead of %s" % (init, wi))
        if before:
            tp = freq_list(self.a.cases[pos - 1]["kw"]["ARCHIVAGE"]["LIST_INST"])
            if abs(tp[-1] - t[0]) > 1e-9:
                f.append("start: at %s, the previous analysis ends at %s" % (t[0], tp[-1]))
        charges = []
        for when, want in ((t[-1], c["loads"]), (t[0], before[-1]["loads"] if before else None)):
            got = []
            for e in tup(kw["EXCIT"]):
                k = func(e["FONC_MULT"], when) if "FONC_MULT" in e else 1.
                if abs(k - 1.) < 1e-9:
                    got.append(e["CHARGE"])
                elif abs(k) > 1e-9:
                    f.append("ramp: %s acts %g times at %g" % (e["CHARGE"], k, when))
            if want is None:
                want = Loads()
                want.grids, want.size = set(self.ref.s.nodes), {}
            f += ["at %g: %s" % (when, x) for x in outputs.compare_loads(want, self.a.loads(got), tol)]
        for e in tup(kw["EXCIT"]):
            if "FONC_MULT" not in e:
                charges.append(e["CHARGE"])
        return charges, [x if ":" in x.split(" ")[0] else x for x in f]

    def excit(self, c, d, tol, gene=None):
        f = []
        got_f = freq_list(d["LIST_FREQ"])
        want_f = c["freqs"]
        if len(got_f) != len(want_f) or any(not close(x, y, 1e-5) for x, y in zip(got_f, want_f)):
            f.append("frequencies: the deck asks for %s, the output for %s" % (want_f[:9], got_f[:9]))
            return f
        # the deck's tables are extrapolated linearly
        fs = sorted({want_f[0], want_f[-1], want_f[len(want_f) // 2], (want_f[0] + want_f[-1]) / 2})
        for x in fs:
            want = self.sel.response(c["DLOAD"], x)
            size = {}
            for k, t, p, v in self.sel.excitations(c["DLOAD"]):
                for n, u in v.items():
                    size[n] = size.get(n, 0.) + abs(k * interp(t, x)) * np.abs(u).max()
            got = {}
            for e in tup(d["EXCIT"]):
                v = e.get("VECT_ASSE") if gene is None else gene(e["VECT_ASSE_GENE"])
                el = self.cmd(self.cmd(v, "ASSE_VECTEUR")["VECT_ELEM"], "CALC_VECT_ELEM")
                L = self.a.loads(list(tup(el["CHARGE"])))
                if len(L.faces) + len(L.lines) or L.gravity.any() or L.rotations:
                    raise Mismatch("excitation that is not nodal")
                z = func(e["FONC_MULT"], x) * np.exp(1j * math.radians(e.get("PHAS_DEG", 0.))) * e.get("COEF_MULT", 1.)
                for n, u in L.nodal.items():
                    got[n] = got.get(n, 0.) + z * u
            big = max([1e-30] + list(size.values()))
            for n in sorted(set(want) | set(got), key=str):
                a_, b_ = want.get(n, np.zeros(6)), got.get(n, np.zeros(6))
                if np.abs(a_ - b_).max() > 1e-5 * size.get(n, 0.) + 1e-9 * big:
                    f.append("excitation: at %g, the deck applies %s on %s, the output %s" % (x, a_, n, b_))
                    return f
        return f

    def matrices(self, kw):
        """charges of the matrices of a direct computation"""
        out = []
        for k in ("MATR_RIGI", "MATR_MASS"):
            out.append({id(x): x for x in self.a.charges({"R": self.cmd(kw[k], "ASSE_MATRICE")["NUME_DDL"]})})
        if set(out[0]) != set(out[1]):
            raise Mismatch("stiffness and mass with different charges")
        return list(out[0].values())

    def aster_DFREQ(self, c, q, cs, pos, tol):
        kw = q["kw"]
        if q["cmd"] != "DYNA_VIBRA" or kw["TYPE_CALCUL"] != "HARM" or kw["BASE_CALCUL"] != "PHYS":
            return None, ["type: %s for a direct frequency response" % q["cmd"]]
        return self.matrices(kw), self.excit(c, kw, tol)

    def aster_MFREQ(self, c, q, cs, pos, tol):
        if q["cmd"] != "REST_GENE_PHYS":
            return None, ["type: %s for a modal frequency response" % q["cmd"]]
        kw = self.cmd(q["kw"]["RESU_GENE"], "DYNA_VIBRA")
        if kw["TYPE_CALCUL"] != "HARM" or kw["BASE_CALCUL"] != "GENE":
            return None, ["type: DYNA_VIBRA %s %s for a modal frequency response" % (kw["TYPE_CALCUL"], kw["BASE_CALCUL"])]
        proj = self.a.co[id(kw["MATR_RIGI"])] if id(kw["MATR_RIGI"]) in self.a.co else None
        if proj is None or self.a.co.get(id(kw["MATR_MASS"])) is not proj:
            raise Mismatch("matrices of GENE are not of one projection")
        charges, f = self.modes(c, proj["BASE"])
        mats = {id(m["MATRICE"]): m["MATR_ASSE"] for m in tup(proj["MATR_ASSE_GENE"])}
        vecs = {id(v["VECTEUR"]): v["VECT_ASSE"] for v in tup(proj["VECT_ASSE_GENE"])}
        for key in ("MATR_RIGI", "MATR_MASS"):
            el = self.cmd(self.cmd(mats[id(kw[key])], "ASSE_MATRICE")["MATR_ELEM"], "CALC_MATR_ELEM")
            opt = el["OPTION"]
            if opt != {"MATR_RIGI": "RIGI_MECA", "MATR_MASS": "MASS_MECA"}[key]:
                raise Mismatch("%s is of option %s" % (key, opt))
            if {id(x) for x in self.a.charges({"C": el.get("CHARGE")})} != {id(x) for x in charges}:
                f.append("matrices: the projected %s has other charges than the modes" % key)
        for v in tup(proj["VECT_ASSE_GENE"]):
            if v.get("TYPE_VECT", "FORC") != "FORC":
                f.append("excitation: of type %s" % v["TYPE_VECT"])

        def gene(v):
            if id(v) not in vecs:
                raise Mismatch("%s is not a vector of the projection" % v)
            return vecs[id(v)]
        f += self.excit(c, kw, tol, gene)
        if c.get("SDAMPING"):
            am = kw.get("AMOR_MODAL")
            e = am and am.get("AMOR_REDUIT")
            if not isinstance(e, Expr):
                return charges, f + ["damping: %r instead of a table" % (e,)]
            tab = e._c
            fun = tup(self.cmd(tab, "CREA_TABLE")["FONCTION"])[0]["FONCTION"]
            at = self.damped_at(fun)
            if at is not proj["BASE"]:
                f.append("damping: at the frequencies of %s instead of %s" % (at, proj["BASE"]))
            for x in comm.MODES:
                w, g = self.sel.damping(c["SDAMPING"], x), func(fun, x)
                if not close(w, g, 1e-5):
                    f.append("damping: %g at %g in the deck, %g in the output" % (w, x, g))
                    break
        elif "AMOR_MODAL" in kw:
            f.append("damping: the deck has no modal damping")
        return charges, f

    def damped_at(self, fun):
        while isinstance(fun, Concept):
            if fun.cmd == "CALC_FONC_INTERP":
                v = fun.kw["VALE_PARA"]
                return v._c if isinstance(v, ModeList) else None
            if fun.cmd != "CALC_FONCTION":
                return None
            fun = tup(fun.kw["COMB"])[0]["FONCTION"]

    # ------------------------------------------------------------ Systus
    def systus_(self, case, s, o, cs):
        from .systus import Asc
        fails = []
        main = [c for c in cs if c["type"] != "COMBINATION"]
        dats = {n: t.decode("latin-1") for n, t in o.files.items() if re.search(r"_SC\d+\.DAT$", n)}
        out = outputs.SystusOut(o, s)
        for c in main:
            if c["type"] not in ("STATIC", "MODES", "MFREQ"):
                raise Invalid("type for Systus")
        R_ = []
        for c in main:
            L = c["loads"]
            if L is None:
                L = Loads()
                L.grids, L.size = set(self.ref.s.nodes), {}
                if c["type"] == "MFREQ":
                    ex = self.sel.excitations(c["DLOAD"])
                    for k, t, p, v in ex[:1]:
                        for n, x in v.items():
                            L.nodal[n] += x
                elif "LOAD" in c:       # the loads of a modal analysis are not used
                    L = None
            R_.append((c, c["sup"], c["eqs"], L))
        if len(out.cases) != len(R_):
            return ["cases: %d analyses in the deck, %d in the output" % (len(R_), len(out.cases))]
        order = self.systus_order(out, R_)
        for (c, sup, eqs, L), q in zip(R_, order):
            w = " (case %s)" % c["id"]
            asc = q["asc"]
            rig = self.ref.rigids(asc.nbdofs)
            lv = {(n, d) for n, d in self.ref.live() if d < asc.nbdofs}
            rows = out.supports(q) + out.equations(q)
            if asc.nbdofs == 3:
                sup = [r for r in sup if any(d < 3 or n in self.ref.masters() for n, d in r[0])]
                for v in L.nodal.values() if L is not None else ():
                    v[3:] = 0.
            fails += [x + w for x in analysis.compare_spaces(sup + eqs + rig, rows, lv, 1e-5)]
            if L is not None:
                fails += [x + w for x in outputs.compare_loads(L, out.loads(q), 1e-5)]
            m = re.search(r"_(SC\d+)_DATA", q["file"])
            dat = next((t for n, t in dats.items() if m and n.endswith("_%s.DAT" % m.group(1))), None)
            if dat is None:
                fails.append("files: no command file for %s" % q["file"])
                continue
            dat = "\n".join(x for x in dat.split("\n") if not x.startswith("#"))
            fails += [x + w for x in self.systus_dat(c, dat, asc)]
        return fails

    def systus_dat(self, c, dat, asc):
        t = "MFREQ" if "HARMONIC RESPONSE" in dat else "MODES" if "MODE SUBSPACE" in dat else "STATIC" if "SOLVE METHOD" in dat else None
        if t != c["type"]:
            return ["type: %s in the output for %s" % (t, c["type"])]
        f = []
        if t == "STATIC":
            return f
        v1, v2, nd, norm = c["search"]
        vec = re.search(r"VECTOR (\d+)(?: STURM FREQUENCY (\S+))? ITER", dat)
        shift = re.search(r"MODE SUBSPACE BLOCK 3(?: FREQUENCY (\S+)| SHIFT)", dat)
        if not vec or not shift:
            return ["search: no VECTOR or MODE command"]
        if nd is not None and int(vec.group(1)) != nd:
            f.append("search: %s modes in the deck, %s in the output" % (nd, vec.group(1)))
        if v2 is not None:
            lo = max(v1 or 0., 0.)
            if not (shift.group(1) and vec.group(2)):
                f.append("search: the deck has a band, not the output")
            else:
                mid, half = float(shift.group(1)), float(vec.group(2))
                if abs(mid - half - lo) > 2e-6 or abs(mid + half - v2) > 2e-6:
                    f.append("search: between %s and %s in the deck, %g and %g in the output" % (lo, v2, mid - half, mid + half))
        elif shift.group(1):
            f.append("search: the output has a band, not the deck")
        if ("NORM MASS" in dat) != (norm == "MASS"):
            f.append("norm: %s" % norm)
        if t == "MODES":
            return f
        fr = re.search(r"FREQUENCY INITIAL (\S+)\s+(\S+) STEP (\S+)", dat)
        w = c["freqs"]
        if not fr:
            return f + ["frequencies: none in the output"]
        a, b, st = (float(x) for x in fr.groups())
        got = [a + st * (i + 1) for i in range(int(round((b - a) / st)))]
        if len(got) != len(w) or any(not close(x, y, 2e-5) for x, y in zip(got, w)):
            f.append("frequencies: the deck asks for %s, the output for %s" % (w[:9], got[:9]))
        g = re.search(r"DAMPING GAMMA (\S+)", dat)
        if bool(g) != bool(c.get("SDAMPING")):
            f.append("damping: %s in the output" % (g and g.group(1)))
        elif g and not close(float(g.group(1)), self.sel.damping(c["SDAMPING"], 0.), 1e-5):
            f.append("damping: %g in the deck, %s in the output" % (self.sel.damping(c["SDAMPING"], 0.), g.group(1)))
        ex = self.sel.excitations(c["DLOAD"])
        fu = re.search(r"^FUNCTION (\d+)", dat, re.M)
        if not fu or int(fu.group(1)) not in asc.tables:
            f.append("excitation: FUNCTION %s, tables %s" % (fu and fu.group(1), sorted(asc.tables)))
        else:
            k, p, ph, v = ex[0]
            tb = asc.tables[int(fu.group(1))]
            tb = tb[len(tb) % 2:]       # a type comes before the values
            got = sorted(zip(tb[::2], tb[1::2]))
            if len(got) != len(p) or any(not close(x, y, 1e-5) or not close(z, k * t_, 1e-5) for (x, z), (y, t_) in zip(got, p)):
                f.append("excitation: amplitude %s (times %g) in the deck, %s in the output" % (p, k, got))
        return f

    # ------------------------------------------------------------ Nastran
    def nastran(self, case, s, o, cs):
        fails = []
        modern = case["target"] == "NASTRAN"
        s2 = deckcheck.read_nas(o)
        ref2 = analysis.Ref(s2)
        sel2 = Sel(s2)
        if not modern and any(c["type"] == "MODES" for c in cs):
            for i, c in enumerate(cs):       # this dialect has no selection of modes: the other selections are compared
                c["METHOD"] = None
        d2 = s2.deck
        try:
            out = deck_cases(d2)
        except Invalid:
            if modern:
                raise
            out = [dict(c, type="MODES") for c in analysis.cases(d2)]
        if [c["type"] for c in out] != [c["type"] for c in cs]:
            return ["cases: the deck has analyses %s, the output %s" % ([c["type"] for c in cs], [c["type"] for c in out])]
        rig, rig2, live = self.ref.rigids(), ref2.rigids(), self.ref.live()
        for c, q in zip(cs, out):
            w = "case %s" % c["id"]
            if c["id"] is not None and q["id"] != c["id"]:
                fails.append("id: sub-case %s is written as %s" % (c["id"], q["id"]))
            if c["type"] == "COMBINATION":
                a, b = ({k: v for k, v in x["coefs"].items() if v} for x in (c, q))
                if a != b:
                    fails.append("combination: %s in the deck, %s in the output (%s)" % (a, b, w))
                continue
            rows = ref2.supports(q, ref2.enforced(q)) + ref2.equations(q) + rig2
            fails += self.one(w, case["target"], c["sup"], c["eqs"], rig, rows, live, c["loads"], ref2.loads(q.get("LOAD")) if c["loads"] is not None else None, 2e-3)
            if c["search"] and modern:
                a, b = c["search"], sel2.search(q["METHOD"])
                if any((x is None) != (y is None) or (x is not None and (x != y if not isinstance(x, float) else not close(x, y, 2e-3))) for x, y in zip(a, b)):
                    fails.append("search: %s in the deck, %s in the output (%s)" % (a, b, w))
        return fails
