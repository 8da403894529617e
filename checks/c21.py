"""C21: every reference value of a result file becomes one assertion of the output."""
import math, re, sys
import numpy as np
from vlib import analysis, aster, deck as dk, deckcheck, engine, wide
from vlib.comm import tup

COMP = ("DX", "DY", "DZ", "DRX", "DRY", "DRZ")
TITLE = {"disp": "D I S P L A C E M E N T   V E C T O R", "load": "L O A D   V E C T O R",
         "spcf": "F O R C E S   O F   S I N G L E - P O I N T   C O N S T R A I N T",
         "cdisp": "C O M P L E X   D I S P L A C E M E N T   V E C T O R", "cload": "C O M P L E X   L O A D   V E C T O R",
         "eig": "R E A L   E I G E N V A L U E S"}
FEATS = ("solid", "shell", "bar", "rod", "cd", "force", "multi", "spring", "mass", "ps", "set3")


def val(x):
    """a value as the solver prints it: 13 characters, 0.0 for zero"""
    return "%-13s" % "0.0" if x == 0 else "%13.6E" % x


def read(x):
    return float(val(x))


def sig(x):
    return None if x is None else float("%.5g" % x)


class F06:
    """prints result tables with their page breaks"""

    def __init__(self, subs):
        self.out, self.n, self.subs = [], 0, subs

    def page(self, sub, extra):
        self.n += 1
        self.out.append("1    %-70s APRIL   7, 2019  MSC.NASTRAN  7/ 6/12   PAGE %5d" % ("VEGA CHECK", self.n))
        self.out.append(" " * 132)
        self.out.append(("0    %-99s" % "SOME LABEL") + ("SUBCASE %-14d" % sub if sub is not None else ""))
        self.out += extra

    def table(self, b):
        kind, sub = b["kind"], b["sub"]
        extra = []
        if b.get("step") is not None:
            extra.append("     LOAD STEP = %12.5E" % b["step"])
        if b.get("freq") is not None:
            extra.append("      FREQUENCY = %13.6E" % b["freq"])
        rows = b["rows"]
        for k in range(0, max(len(rows), 1), b["per"]):
            self.page(sub, extra)
            if kind == "vm":
                self.out.append("                   S T R E S S E S   I N    H E X A H E D R O N   S O L I D   E L E M E N T S   ( H E X A )")
                self.out.append("0                CORNER        ------CENTER AND CORNER POINT STRESSES---------       DIR.  COSINES       MEAN                   ")
                self.out.append("  ELEMENT-ID    GRID-ID        NORMAL              SHEAR             PRINCIPAL       -A-  -B-  -C-     PRESSURE       VON MISES")
                for eid, pts in rows[k:k + b["per"]]:
                    self.out.append("0 %9d           0GRID CS  %d GP" % (eid, len(pts)))
                    for g, v in [("CENTER", b["centre"])] + [tuple(p) for p in pts]:
                        self.out.append("0 %21s  X  -4.999996E-01  XY   3.064646E-08   A   2.603470E-07  LX 0.0  1.00 0.0    1.666664E-01   %s" % (g, val(v)))
                        self.out.append("                         Y   2.224241E-07  YZ   5.760327E-08   B  -4.999996E-01  LY 0.0  0.00 0.0")
                        self.out.append("                         Z   2.982697E-07  ZX   3.735851E-07   C   2.603470E-07  LZ 0.0  0.00 0.0")
                continue
            self.out.append(" " * 40 + TITLE[kind])
            if kind == "eig":
                if b.get("note"):
                    self.out.append(" " * 40 + b["note"])
                self.out.append("   MODE    EXTRACTION      EIGENVALUE            RADIANS             CYCLES            GENERALIZED         GENERALIZED")
                self.out.append("    NO.       ORDER                                                                       MASS              STIFFNESS")
                for n, ev, mass in rows[k:k + b["per"]]:
                    w = math.sqrt(abs(ev))
                    self.out.append(" %8d %9d       %s       %s       %s       %s       %s" % (n, n, val(ev), val(w), val(w / 2 / math.pi), val(mass), val(ev * mass)))
                continue
            if kind[0] == "c":
                self.out.append(" " * 58 + "(REAL/IMAGINARY)")
            self.out.append(" ")
            self.out.append("      POINT ID.   TYPE          T1             T2             T3             R1             R2             R3")
            for i, typ, v in rows[k:k + b["per"]]:
                if kind[0] == "c":
                    n = len(v) // 2
                    self.out.append("0 %12d      %s     %s" % (i, typ, "  ".join(val(x) for x in v[:n])))
                    self.out.append(" " * 26 + "  ".join(val(x) for x in v[n:]))
                else:
                    self.out.append(" %13d      %s     %s" % (i, typ, "  ".join(val(x) for x in v)))

    def text(self):
        self.page(None, [" " * 40 + "* * * *  E N D   O F   J O B  * * * *"])
        return "\n".join(self.out) + "\n"


class C21(deckcheck.DeckCheck):
    prop = "C21"
    rule = "A case counts when at least six values of its result file designate freedoms of its model."
    assumptions = ("Result files use one page layout of the solver (SORT1, real or real/imaginary) or the tables Code_Aster writes.",
                   "A value of a freedom that no element or relation of the model provides may be left out.")
    quick_n, thorough_n = 6000, 100000
    targets = ("ASTER", "ASTER", "SYSTUS")

    def gen(self, r):
        t = r.choice(self.targets)
        sol = r.choice([101, 101, 103, 108, 111]) if t == "ASTER" else r.choice([101, 101, 103, 111])
        case, b = wide.case(r, t, feats=FEATS, sols=(sol,), p=r.choice([.3, .5]))
        case["tol"] = r.choice([None, None, .05, 1e-3, .5])
        if r.random() < .7:
            cc = []
            for ln in case["deck"]["cc"]:
                cc.append(ln)
                if ln.split()[:1] == ["SUBCASE"]:
                    cc.append("  LABEL = NAME%s" % ln.split()[-1])
            case["deck"]["cc"] = cc
        if sol == 111 and r.random() < .25:
            case["deck"]["cards"].append(["PARAM", r.choice(["LFREQ", "HFREQ"]), float("%.3g" % 10 ** r.uniform(0, 4))])
        cs = analysis.cases(case["deck"])
        subs = [c["id"] for c in cs]
        grids = sorted(b.nodes)
        res = []
        num = lambda: r.choice([0., 1., -1., 1e-13, round(r.uniform(-9, 9), 6), r.uniform(-1, 1) * 10 ** r.randint(-14, 6)])
        def rows(nv):
            pts = sorted(set(r.sample(grids, r.randint(1, min(len(grids), 12)))))
            out = []
            for g in pts:
                out.append([g, "G", [read(num()) for _ in range(nv)]])
                if r.random() < .04:
                    out.append([g + 1 if g + 1 not in b.nodes else 99999991, "S", [read(num()) for _ in range(nv // 6 * r.choice([1, 1, 3]))]])
            return out
        if sol == 101 and t == "ASTER" and r.random() < .25:
            case["csv"] = r.choice([0, 1, 2])
            for s in subs:
                res.append({"kind": "disp", "sub": s or 1, "rows": [x for x in rows(6) if x[1] == "G"], "step": r.choice([0., 0., 1., .5])})
        else:
            for s in subs:
                if sol in (103, 111) and r.random() < .7:
                    evs = sorted(10 ** r.uniform(2, 8) for _ in range(r.randint(1, 6)))
                    mass = r.choice([1., 1., None])
                    er = [[k + 1, read(e), read(mass or 10 ** r.uniform(-3, 3))] for k, e in enumerate(evs)]
                    if sol == 111:
                        res.append({"kind": "eig", "sub": s, "rows": er, "per": 50, "note": r.choice([None, "(BEFORE AUGMENTATION OF RESIDUAL VECTORS)"])})
                        for note in ("(AFTER AUGMENTATION OF RESIDUAL VECTORS)", "(ACTUAL MODES USED IN THE DYNAMIC ANALYSIS)"):
                            if r.random() < .4:
                                res.append({"kind": "eig", "sub": s, "rows": [[a, 2 * x, y] for a, x, y in er], "per": 50, "note": note})
                    else:
                        res.append({"kind": "eig", "sub": s, "rows": er, "per": r.choice([2, 50, 50])})
                steps = [None]
                if sol == 101 and t == "ASTER" and r.random() < .2:
                    steps = sorted(round(r.uniform(.1, 1), 3) for _ in range(r.randint(1, 3)))
                freqs = sorted({float("%.4g" % 10 ** r.uniform(0, 3)) for _ in range(r.randint(1, 3))})
                for q in range(len(freqs) if sol in (108, 111) else len(steps)):
                    for kind in ("disp", "load", "spcf") if sol not in (108, 111) else ("cdisp", "cload"):
                        if sol == 103 or r.random() > (.85 if "disp" in kind else .3):
                            continue
                        blk = {"kind": kind, "sub": s, "rows": rows(12 if kind[0] == "c" else 6), "per": r.choice([2, 5, 50])}
                        if kind[0] == "c":
                            blk["freq"] = freqs[q]
                        elif steps[q] is not None:
                            blk["step"] = steps[q]
                        res.append(blk)
                if sol == 101 and r.random() < .4:
                    sol8 = [e for e in b.cards if e[0] in ("CHEXA", "CTETRA", "CPENTA")]
                    if sol8:
                        vr = []
                        for e in r.sample(sol8, min(len(sol8), 3)):
                            n = {"CHEXA": 8, "CTETRA": 4, "CPENTA": 6}[e[0]]
                            vr.append([e[1], [[g, read(abs(num()))] for g in e[3:3 + n]]])
                        res.append({"kind": "vm", "sub": s, "rows": vr, "per": r.choice([1, 2, 50]), "centre": 0.25})
        # a result file may hold more than the deck
        if res and r.random() < .15:
            x = dict(r.choice(res))
            x["sub"] = max(q or 1 for q in subs) + r.randint(1, 3)
            if None not in subs:
                res.insert(r.randrange(len(res) + 1), x)
        if r.random() < .1:
            for x in res:
                if x["kind"] != "eig" and x["kind"] != "vm":
                    x["rows"].insert(r.randrange(len(x["rows"]) + 1), [99999993, "G", [1.] * (12 if x["kind"][0] == "c" else 6)])
        case["res"] = res
        return case

    # ------------------------------------------------------------ what the file says
    def file(self, case):
        if "csv" not in case:
            f = F06(None)
            for b in case["res"]:
                f.table(b)
            return "r.f06", f.text()
        out = ["#", "#D I S P L A C E M E N T S", "#TABLE_SDASTER"]
        cols = [["RESULTAT", "NOM_CHAM", "INST", "NUME_ORDRE", "NOEUD", "COOR_X"] + list(COMP), ["RESULTAT", "NOEUD", "INST"] + list(COMP[:3]),
                ["NOEUD"] + list(COMP[::-1]) + ["RESULTAT", "INST"]][case["csv"]]
        out.append(" ," + ",".join("%-13s" % c for c in cols))
        for b in case["res"]:
            for i, typ, v in b["rows"]:
                d = dict(zip(COMP, ("%12.5E" % x for x in v)), RESULTAT="RESU%d" % b["sub"], NOM_CHAM="DEPL", INST="%12.5E" % b["step"], NUME_ORDRE="%12d" % 1, NOEUD="N%d" % i, COOR_X="%12.5E" % 1.5)
                out.append(" ," + ",".join("%-13s" % d[c] for c in cols))
        return "r.csv", "\n".join(out) + "\n"

    def expected(self, case, s):
        """[(must, item)]; item = (kind, analysis, where, what, value)"""
        live = analysis.Ref(s).live()
        known = [c["id"] or 1 for c in analysis.cases(case["deck"])]
        out = []
        for b in case["res"]:
            sub = b["sub"] or 1
            if sub not in known:
                continue
            k, kind = known.index(sub) + 1, b["kind"]
            if kind in ("disp", "cdisp"):
                for i, typ, v in b["rows"]:
                    if typ != "G" or i not in s.nodes:
                        continue
                    v = np.array(v, float)
                    if "csv" in case:
                        v = np.array([float("%.5E" % x) for x in v])
                    n = 3 if case.get("csv") == 1 else 6
                    parts = [v] if kind == "disp" else [v[:6], v[6:]]
                    if "csv" not in case:
                        R = s.basis(i) if hasattr(s, "basis") else np.array(s.T[i])
                        parts = [np.concatenate([R @ p[:3], R @ p[3:]]) for p in parts]
                        parts = [np.where(np.abs(p) < 1e-12, 0., p) for p in parts]
                    # what rotating the values may leave
                    tiny = [1e-6 * max(np.abs(p[j // 3 * 3:j // 3 * 3 + 3]).max() for p in parts) for j in range(6)]
                    for j in range(n):
                        out.append(((i, j) in live, (kind, k, i, j, sig(b.get("step", b.get("freq")))), tuple(float(p[j]) for p in parts), tiny[j]))
            elif kind == "eig":
                if b.get("note") and "BEFORE" not in b["note"]:
                    continue
                for n, ev, mass in b["rows"]:
                    out.append((True, ("eig", k, n, None, None), (read(math.sqrt(abs(ev)) / 2 / math.pi), mass, read(ev * mass)), 0.))
            elif kind == "vm":
                for eid, pts in b["rows"]:
                    for g, v in pts:
                        out.append((True, ("vm", k, eid, g, None), (v,), 0.))
        return out

    # ------------------------------------------------------------ what the outputs say
    def judge(self, case):
        s = self.sem(case)
        name, text = self.file(case)
        want = self.expected(case, s)
        opts = ["-t", "in/" + name] + (["-x", repr(case["tol"])] if case["tol"] is not None else [])
        o = self.translate(case, opts=opts, extra_files={name: text})
        tags = self.tags(case, s) + sorted({"result:" + b["kind"] for b in case["res"]}) + (["csv"] if "csv" in case else [])
        nt = sum(len(v) for m, i, v, e in want if m) >= 6
        if o.rc != 0:
            return engine.Outcome(["exit-code %s: with a result file: %s" % (o.rc, o.log[-600:])], tags, nt)
        got = self.aster(case, s, o) if case["target"] == "ASTER" else self.systus(case, s, o)
        return engine.Outcome(self.match(case, want, got), tags, nt)

    def match(self, case, want, got):
        out = []
        tol = case["tol"] if case["tol"] is not None else .02
        have = {}
        for item, v, t in got:
            if item in have:
                out.append("twice: %s" % (item,))
            have[item] = v, t
        if case["target"] == "SYSTUS":
            # announced as not carried over
            dyn = any(c["sol"] == "111" for c in analysis.cases(case["deck"]))
            want = [w for w in want if w[1][0] != "vm" and not (dyn and w[1][0] == "eig")]
        for must, item, v, tiny in want:
            if item not in have:
                if must and not (item[0] == "eig" and self.cut(case, item, v[0])):
                    out.append("lost-%s: %s = %s has no assertion" % (item[0], item, v))
                continue
            w, t = have.pop(item)
            for a, b in zip(v, w):
                if b is not None and abs(a - b) > 2e-5 * abs(a) + tiny + 1.1e-10:
                    out.append("value-%s: %s is %s, asserted %s" % (item[0], item, v, w))
                    break
            if t is not None and abs(t - tol) > 1e-9:
                out.append("tolerance-%s: %s instead of %s for %s" % (item[0], t, tol, item))
        for item in have:
            out.append("invented-%s: %s = %s" % (item[0], item, have[item]))
        return out

    def cut(self, case, item, f):
        """LFREQ and HFREQ exclude modes from the response"""
        lo = [c[2] for c in case["deck"]["cards"] if c[0] == "PARAM" and c[1] == "LFREQ"]
        hi = [c[2] for c in case["deck"]["cards"] if c[0] == "PARAM" and c[1] == "HFREQ"]
        return bool(lo and f < lo[0]) or bool(hi and f > hi[0])

    def aster(self, case, s, o):
        a = aster.Aster(o)
        bad = a.match(s)
        a.match_cells(s)
        eid = {k: v for k, v in a.cell.items()}
        got, modes = [], {}
        for _, kw in a.comm.all("TEST_RESU"):
            if not tup(kw["RESU"]):
                got.append((("empty", None, None, None, None), (), None))
            for f in tup(kw["RESU"]):
                res = f["RESULTAT"].name
                k = int(re.search(r"(\d+)$", res).group(1))
                num = lambda x: float(x) if not isinstance(x, (tuple, list)) else float(x[0])
                if "PARA" in f:
                    d = modes.setdefault((k, int(f["NUME_MODE"])), {})
                    if f["PARA"] in d:
                        got.append((("eig-twice", k, int(f["NUME_MODE"]), f["PARA"], None), (), None))
                    d[f["PARA"]] = float(f["VALE_CALC"])
                    d["tol"] = num(f["TOLE_MACHINE"])
                    continue
                g = a.grid.get(a.node_named(f["NOEUD"]))
                if f["NOM_CHAM"] == "SIEQ_ELNO":
                    cs = a.mesh.cell_groups[f["GROUP_MA"].strip()]
                    e = [x for x, c in eid.items() if [c] == list(cs)]
                    got.append((("vm", k, e[0] if e else cs, g, None), (float(f["VALE_CALC"]),), num(f["TOLE_MACHINE"]) if float(f["VALE_CALC"]) > 1e-6 else None))
                    continue
                j = COMP.index(f["NOM_CMP"])
                if "VALE_CALC_C" in f:
                    z = complex(f["VALE_CALC_C"])
                    got.append((("cdisp", k, g, j, sig(float(f["FREQ"]))), (z.real, z.imag), num(f["TOLE_MACHINE"]) if abs(z) > 1e-6 else None))
                else:
                    got.append((("disp", k, g, j, sig(float(f["INST"])) if "INST" in f else None), (float(f["VALE_REFE"]),), float(f["PRECISION"])))
        for (k, n), d in modes.items():
            got.append((("eig", k, n, None, None), (d.get("FREQ"), d.get("MASS_GENE"), d.get("RIGI_GENE")), d["tol"]))
        return got

    def load_cases(self, o, name):
        """titles of the load cases of the ASC file this DAT file reads"""
        asc = o.files.get(name[:-4] + "_DATA1.ASC", b"").decode("latin-1")
        m = re.search(r"BEGIN_LOADS \d+\n(.*?)END_LOADS", asc, re.S)
        return {int(i): t for i, t in re.findall(r'^\s*(\d+) "(.*?)"', m.group(1), re.M)} if m else {}

    def systus(self, case, s, o):
        got = []
        labels = {i + 1: str(c.get("LABEL") or "") for i, c in enumerate(analysis.cases(case["deck"]))}
        for name in sorted(o.files):
            if not name.endswith(".DAT"):
                continue
            k = None
            pend = None
            titles = self.load_cases(o, name)
            for ln in o.files[name].decode("latin-1").split("\n"):
                m = re.match(r'iResu=open_file\("\w+?_(\d+)\.RESU"', ln)
                if m:
                    k = int(m.group(1))
                m = re.match(r"displacement = node_displacement\((\d+),(\d+)\);", ln)
                if m:
                    pend = ["disp", int(m.group(2)), None]
                    # the map must belong to a load case of this very analysis
                    title = titles.get(int(m.group(1)), "")
                    if labels[k] and title != labels[k] and not title.startswith(labels[k] + "_LOAD"):
                        got.append((("map", k, int(m.group(1)), title, "of node %d" % pend[1]), (), None))
                m = re.match(r"while .*abs\(puls - ([-+.\deE]+)\)/", ln)
                if m:
                    w = float(m.group(1))
                m = re.match(r"displacement = trans_node_displacement\(nume_ordre,(\d+)\);", ln)
                if m:
                    pend = ["cdisp", int(m.group(1)), sig(w / 2 / math.pi)]
                m = re.match(r"frequency = frequency_number\((\d+)\);", ln)
                if m:
                    pend = ["eig", int(m.group(1))]
                m = re.match(r"diff = abs\(\((?:displacement\[(\d)\]|frequency)-\((.*?)\)\)/", ln)
                if m:
                    pend += [int(m.group(1)) - 1 if m.group(1) else None, (float(m.group(2)),)]
                m = re.match(r"displacement_real = displacement\[(\d)\]", ln)
                if m:
                    pend += [int(m.group(1)) - 1]
                m = re.match(r"diff = \(abs\(displacement_real-\((.*?)\)\) \+ abs\(displacement_imag-\((.*?)\)\)\)", ln)
                if m:
                    pend += [(float(m.group(1)), float(m.group(2)))]
                m = re.match(r"if \(diff > abs\((.*?)\)\)", ln)
                if m:
                    t = float(m.group(1))
                    if pend[0] == "eig":
                        got.append((("eig", k, pend[1], None, None), pend[3] + (None, None), t))
                    else:
                        got.append(((pend[0], k, pend[1], pend[3], pend[2]), pend[4], t))
        return got

    def text(self, case):
        name, text = self.file(case)
        return deckcheck.DeckCheck.text(self, {k: v for k, v in case.items() if k != "res"}) + "\n$ ---- %s\n%s" % (name, text)

    def shrinks(self, case):
        for sub in engine.ddmin_list(list(range(len(case["res"])))):
            yield dict(case, res=[case["res"][i] for i in sub])
        for i, b in enumerate(case["res"]):
            for sub in engine.ddmin_list(list(range(len(b["rows"])))):
                yield dict(case, res=case["res"][:i] + [dict(b, rows=[b["rows"][k] for k in sub])] + case["res"][i + 1:])
        yield from deckcheck.DeckCheck.shrinks(self, case)


if __name__ == "__main__":
    sys.exit(engine.run(C21()))
