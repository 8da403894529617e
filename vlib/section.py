"""Sections and materials of a deck, from the Nastran definitions, and those a written model assigns."""
import math
from .sem import F, R, Invalid
from .comm import tup

EPS = 2.3e-16


def mat(s, mid, wt=1.):
    c = s.materials[mid]
    if c[0] == "MAT8":
        return {"kind": "ORTHO", "EL": R(c, 2), "ET": R(c, 3), "NULT": R(c, 4), "GLT": R(c, 5), "GLN": R(c, 6), "GTN": R(c, 7),
                "RHO": wt * R(c, 8, 0.), "A1": R(c, 9), "A2": R(c, 10), "XT": R(c, 12), "XC": R(c, 13), "YC": R(c, 15), "S": R(c, 16)}
    if c[0] == "MATHP":
        a10, a01 = R(c, 2, 0.), R(c, 3, 0.)
        return {"kind": "HYPER", "C10": a10, "C01": a01, "C20": R(c, 17, 0.), "K": 2 * R(c, 4, 1000 * (a10 + a01)), "RHO": wt * R(c, 5, 0.)}
    e, g, nu = R(c, 2), R(c, 3), R(c, 4)
    if nu is None:
        if g is None:
            nu, g = 0., 0.
        elif e is None:
            nu, e = 0., 0.
        else:
            nu = e / (2 * g) - 1
    elif e is None:
        e = 2 * (1 + nu) * g
    elif g is None:
        g = e / (2 * (1 + nu))
    return {"kind": "ISO", "E": e, "G": g, "NU": nu, "RHO": wt * R(c, 5, 0.), "GE": R(c, 8)}


def shape(t, d):
    """A, IY (bending in the xz plane), IZ (bending in the xy plane), J of a library section; J None: thin-walled approximation"""
    if t == "ROD":
        r = d[0]
        return math.pi * r * r, math.pi * r ** 4 / 4, math.pi * r ** 4 / 4, math.pi * r ** 4 / 2
    if t == "TUBE":
        o, i = d[:2]
        q = math.pi / 4 * (o ** 4 - i ** 4)
        return math.pi * (o * o - i * i), q, q, 2 * q
    if t == "BAR":
        w, h = d[:2]                       # along z, along y
        a, b = max(w, h), min(w, h)
        return w * h, h * w ** 3 / 12, w * h ** 3 / 12, a * b ** 3 * (1 / 3. - .21 * b / a * (1 - b ** 4 / (12 * a ** 4)))
    h, wb, wt_, tw, tb, tt = d[:6]
    if wb != wt_ or tb != tt:
        raise Invalid("unequal flanges")
    hw = h - 2 * tb
    return (2 * wb * tb + hw * tw, (2 * tb * wb ** 3 + hw * tw ** 3) / 12, (wb * h ** 3 - (wb - tw) * hw ** 3) / 12,
            (2 * wb * tb ** 3 + hw * tw ** 3) / 3)


DIMS = {"BAR": 2, "ROD": 1, "TUBE": 2, "I": 6}


def wtmass(s):
    for c in s.by.get("PARAM", ()):
        if str(c[1]).upper() == "WTMASS":
            return float(c[2])
    return 1.


def section(s, e, wt=None):
    """what the deck says of element e"""
    wt = wtmass(s) if wt is None else wt
    if e.card == "CONROD":
        c = e.data
        return {"kind": "rod", "A": R(c, 5), "J": R(c, 6, 0.), "mat": mat(s, c[4], wt), "nsm": wt * R(c, 8, 0.)}
    p = s.properties[e.pid]
    n = p[0]
    nsm = wt * nsm_of(p)
    if n in ("PSOLID", "PLSOLID", "PIHEX"):
        return {"kind": "solid", "mat": mat(s, p[2], wt), "nsm": 0.}
    if n == "PSHELL":
        return {"kind": "shell", "T": R(p, 3), "mat": mat(s, p[2], wt), "nsm": nsm, "offset": e.zoffs or 0.}
    if n == "PCOMP":
        plies, m, t = [], None, None
        for k in range(9, len(p), 4):
            if all(F(p, k + j) is None for j in range(4)):
                continue
            m, t = F(p, k, m), R(p, k + 1, t)
            if m is None or t is None or not t > 0:
                raise Invalid("ply without material or thickness")
            plies.append((t, mat(s, m, wt), R(p, k + 2, 0.)))
        if not plies:
            raise Invalid("no ply")
        if F(p, 8) == "SYM":
            plies = plies + plies[::-1]
        T = sum(x[0] for x in plies)
        z0 = R(p, 2)
        return {"kind": "composite", "T": T, "plies": plies, "nsm": 0., "offset": (e.zoffs or 0.) + (0. if z0 is None else z0 + T / 2)}
    if n == "PROD":
        return {"kind": "rod", "A": R(p, 3), "J": R(p, 4, 0.), "mat": mat(s, p[2], wt), "nsm": nsm}
    out = {"kind": "beam", "mat": mat(s, p[2], wt), "nsm": nsm}
    if n == "PBAR":
        k1, k2 = R(p, 17, 0.), R(p, 18, 0.)
        out.update(A=R(p, 3), IZ=R(p, 4, 0.), IY=R(p, 5, 0.), J=R(p, 6, 0.), AY=1 / k1 if k1 else 0., AZ=1 / k2 if k2 else 0.)
    elif n == "PBEAM":
        out.update(A=R(p, 3), IZ=R(p, 4), IY=R(p, 5), J=R(p, 7, 0.))
    else:
        t = p[4]
        d = [R(p, 9 + k) for k in range(DIMS[t])]
        a, iy, iz, j = shape(t, d)
        if not (a > 0 and iy > 0 and iz > 0):
            raise Invalid("impossible section")
        out.update(A=a, IY=iy, IZ=iz, J=j)
        if t == "I":
            out["Jmax"] = j + 2 * d[4] * d[3] ** 3 / 3       # the web counted between or across the flanges
    return out


def nsm_of(p):
    if p[0] in ("PBARL", "PBEAML"):
        return R(p, 9 + DIMS.get(p[4], 0), 0.)
    i = {"PSHELL": 8, "PBAR": 7, "PBEAM": 8, "PROD": 6}.get(p[0])
    return R(p, i, 0.) if i else 0.


# ---------------------------------------------------------------- comparison
def near(a, b, tol, floor=0.):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= tol * max(abs(a), abs(b)) + floor


def diff_mat(want, got, tol):
    """[(field, wanted, got)]"""
    if want["kind"] != got.get("kind"):
        return [("kind", want["kind"], got.get("kind"))]
    out = []
    for k, v in want.items():
        if k == "kind" or k not in got:
            continue
        if not near(v, got[k], tol, tol if k.startswith("NU") else 0.):
            out.append((k, v, got[k]))
    return out


# ---------------------------------------------------------------- what a Code_Aster model assigns
class AsterSections:
    BEAM = {"POU_D_T", "POU_D_E", "POU_D_TGM", "POU_D_T_GD"}

    def __init__(self, a):
        self.a = a
        self.cara, self.mater, self.model = {}, {}, {}
        c = a.comm.one("AFFE_CARA_ELEM") or {}
        for key in ("POUTRE", "BARRE", "COQUE", "MASSIF"):
            for kw in tup(c.get(key)):
                for x in a.cells(kw):
                    self.cara.setdefault(x, []).append((key, kw))
        self.vecty = {}
        for kw in tup(c.get("ORIENTATION")):
            for x in a.cells(kw):
                self.vecty.setdefault(x, []).append((kw["CARA"], tuple(float(v) for v in tup(kw["VALE"]))))
        for kw in tup((a.comm.one("AFFE_MATERIAU") or {}).get("AFFE")):
            for x in a.cells(kw):
                self.mater.setdefault(x, []).append(kw["MATER"])
        for kw in tup((a.comm.one("AFFE_MODELE") or {}).get("AFFE")):
            for x in a.cells(kw):
                self.model.setdefault(x, []).append(kw.get("MODELISATION"))

    @staticmethod
    def mat(concept):
        kw = concept.kw
        if concept.cmd == "DEFI_COMPOSITE":
            return {"kind": "composite", "plies": [(float(c["EPAIS"]), AsterSections.mat(c["MATER"]), float(c["ORIENTATION"]))
                                                   for c in tup(kw["COUCHE"])]}
        ks = [k for k in ("ELAS", "ELAS_ORTH", "ELAS_HYPER") if k in kw]
        if len(ks) != 1:
            return {"kind": "+".join(ks) or "none"}
        m = tup(kw[ks[0]])[0]
        g = lambda k, d=None: float(m[k]) if k in m else d
        if ks[0] == "ELAS":
            return {"kind": "ISO", "E": g("E"), "NU": g("NU"), "RHO": g("RHO", 0.), "GE": g("AMOR_HYST")}
        if ks[0] == "ELAS_HYPER":
            return {"kind": "HYPER", "C10": g("C10"), "C01": g("C01"), "C20": g("C20", 0.), "K": g("K"), "RHO": g("RHO", 0.)}
        return {"kind": "ORTHO", "EL": g("E_L"), "ET": g("E_T"), "NULT": g("NU_LT"), "GLT": g("G_LT"), "GLN": g("G_LN"), "GTN": g("G_TN"),
                "RHO": g("RHO", 0.), "A1": g("ALPHA_L"), "A2": g("ALPHA_T"), "XT": g("XT"), "XC": g("XC"), "YC": g("YC"), "S": g("S_LT")}

    def section(self, x):
        """of mesh cell x: dict, or a failure string"""
        cs, ms, md = self.cara.get(x, []), self.mater.get(x, []), self.model.get(x, [])
        if len(md) != 1:
            return "modelling: cell %d is in %d modellings" % (x, len(md))
        if len(ms) != 1:
            return "material: cell %d has %d materials" % (x, len(ms))
        if len(cs) != 1:
            return "section: cell %d has %d sections" % (x, len(cs))
        key, kw = cs[0]
        m = self.mat(ms[0])
        mod = tup(md[0])[0]
        if key == "MASSIF":
            return {"kind": "solid", "mat": m, "mod": mod}
        if key == "COQUE":
            t, off = float(kw["EPAIS"]), float(kw.get("EXCENTREMENT", 0.))
            if m["kind"] == "composite":
                return {"kind": "composite", "T": t, "plies": m["plies"], "offset": off, "ncou": kw.get("COQUE_NCOU"), "mod": mod}
            return {"kind": "shell", "T": t, "mat": m, "offset": off, "mod": mod}
        v = dict(zip(tup(kw["CARA"]), [float(q) for q in tup(kw["VALE"])]))
        z = lambda q: 0. if abs(q) <= EPS else q
        out = {"mat": m, "mod": mod, "kind": "rod" if key == "BARRE" or mod == "BARRE" else "beam"}
        if kw["SECTION"] == "GENERALE":
            out["A"] = z(v["A"])
            for k, n in (("IY", "IY"), ("IZ", "IZ"), ("J", "JX"), ("AY", "AY"), ("AZ", "AZ")):
                if n in v:
                    out[k] = z(v[n])
        elif kw["SECTION"] == "RECTANGLE":
            out["A"], out["IY"], out["IZ"], out["J"] = shape("BAR", (v["HZ"], v["HY"]))
        elif kw["SECTION"] == "CERCLE":
            r = v["R"]
            out["A"], out["IY"], out["IZ"], out["J"] = shape("TUBE", (r, r - v["EP"] if "EP" in v else 0.))
        else:
            return "section: SECTION=%r" % kw["SECTION"]
        return out


MODS = {"solid": lambda m: m.startswith("3D"), "shell": lambda m: m in ("DKT", "DST", "Q4G", "Q4GG", "DKTG", "COQUE_3D"),
        "composite": lambda m: m in ("DKT", "DST", "Q4G", "Q4GG", "DKTG", "COQUE_3D"),
        "beam": lambda m: m in AsterSections.BEAM, "rod": lambda m: m == "BARRE"}


def diff(want, got, tol):
    """differences of two sections, [(field, wanted, got)]"""
    if want["kind"] != got["kind"]:
        return [("kind", want["kind"], got["kind"])]
    out = []
    for k in ("T", "A", "IY", "IZ", "J", "AY", "AZ"):
        if k == "J" and "Jmax" in want and k in got and want["J"] * (1 - tol) <= got[k] <= want["Jmax"] * (1 + tol):
            continue
        if k in want and k in got and not near(want[k], got[k], tol, 1e-15):
            out.append((k, want[k], got[k]))
    if "mat" in want:
        out += [("material " + k, a, b) for k, a, b in diff_mat(want["mat"], got["mat"], tol)]
    if "plies" in want:
        if len(want["plies"]) != len(got["plies"]):
            out.append(("number of plies", len(want["plies"]), len(got["plies"])))
        else:
            for i, ((t, m, o), (t2, m2, o2)) in enumerate(zip(want["plies"], got["plies"])):
                if not near(t, t2, tol):
                    out.append(("thickness of ply %d" % (i + 1), t, t2))
                if not near(o, o2, tol):
                    out.append(("angle of ply %d" % (i + 1), o, o2))
                out += [("material %s of ply %d" % (k, i + 1), a, b) for k, a, b in diff_mat(ortho(m), m2, tol)]
    return out


def ortho(m):
    """an isotropic ply is written as an orthotropic one with equal constants"""
    if m["kind"] != "ISO":
        return m
    return {"kind": "ORTHO", "EL": m["E"], "ET": m["E"], "NULT": m["NU"], "GLT": m["G"], "GLN": m["G"], "GTN": m["G"], "RHO": m["RHO"]}
