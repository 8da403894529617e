"""What an output describes, whatever the order and the internal numbering of its objects: {item text: count}."""
import collections
from . import deck as dk
from .aster import Aster
from .comm import Concept, Expr, tup
from .systus import Asc

LOADS = ("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F")


def num(x):
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return repr(x)
    if abs(x) < 1e-9:
        return "0"
    return "%.6g" % x


def point(p):
    return "(%s)" % ",".join("%.4f" % (x + 0.) if abs(x) > 5e-5 else "0.0000" for x in p)


INLINE = ("CO", "CALC_VECT_ELEM", "ASSE_VECTEUR")   # intermediate results of one load: numbered, described where they are used


class AsterContent:
    def __init__(self, out):
        a = self.a = Aster(out)
        m = a.mesh
        self.node = [point(c) for c in m.coords]
        self.cell = {k: "%s[%s]" % (t, " ".join(self.node[n] for n in ns)) for k, (t, ns) in m.cells.items()}
        self.memo = {}
        self.items = collections.Counter()
        for p in self.node:
            self.items["node " + p] += 1
        for c in self.cell.values():
            self.items["cell " + c] += 1
        for g, cs in m.cell_groups.items():
            self.items["cells %s" % self.group(g)] += 1
        for g, ns in m.node_groups.items():
            if g.startswith("CS_"):
                continue   # display group of what is left of a support set after supports that repeat others are dropped
            self.items["nodes %s" % self.ngroup(g)] += 1
        used = set()
        self.proj = {}
        for _, kw in a.comm.all("PROJ_BASE"):
            for f in tup(kw.get("VECT_ASSE_GENE")):
                self.proj[f["VECTEUR"].name] = f["VECT_ASSE"]
        for name, cmd, kw in a.comm.calls:
            if cmd in INLINE or cmd in LOADS or cmd in ("DEFI_MATERIAU", "DEFI_COMPOSITE", "DEFI_FONCTION", "DEFI_CONSTANTE", "DEFI_LIST_REEL", "FORMULE"):
                continue
            if cmd == "DETRUIRE":
                kw = dict(kw, CONCEPT=[f for f in tup(kw.get("CONCEPT")) if not any(c.cmd in INLINE and (c.cmd != "CO" or c.name in self.proj) for c in tup(f["NOM"]))])
            if "EXCIT" in kw:
                flat = collections.Counter()
                for f in tup(kw["EXCIT"]):
                    rest = {k: v for k, v in f.items() if k != "CHARGE"}
                    for c in self.flat(f["CHARGE"]) if "CHARGE" in f else ["-"]:
                        flat["%s %s" % (self.value(rest), c)] += 1
                    if "CHARGE" not in f:
                        continue
                    if True:
                        used.add(f["CHARGE"].name)
                for c, n in flat.items():
                    self.items["%s excit %s" % (name, c)] += n
                kw = {k: v for k, v in kw.items() if k != "EXCIT"}
            if cmd in ("AFFE_MODELE", "AFFE_MATERIAU", "AFFE_CARA_ELEM"):
                for k, v in kw.items():
                    for f in tup(v):
                        if isinstance(f, dict):
                            # an assignment to several groups is one assignment to each cell
                            rest = self.value({a: b for a, b in f.items() if a not in ("GROUP_MA", "MAILLE")})
                            for c in sorted(self.a.cells(f)):
                                self.items["%s %s %s %s" % (cmd, k, rest, self.cell[c])] += 1
                        else:
                            self.items["%s %s %s" % (cmd, k, self.value(f))] += 1
                continue
            self.items["%s = %s %s" % (name if cmd not in ("IMPR_RESU",) else None, cmd, self.value(kw))] += 1
        for name, cmd, kw in a.comm.calls:
            # a set that no analysis refers to has no meaning when there are analyses; otherwise all are kept
            if cmd in LOADS and name not in used and not used:
                for c in self.flat(a.comm.by_name[name]):
                    self.items["unused " + c] += 1

    def group(self, g):
        g = g.strip()
        if g in self.a.mesh.cell_groups:
            return "{%s}" % "; ".join(sorted(self.cell[c] for c in self.a.mesh.cell_groups[g]))
        return "?" + g

    def ngroup(self, g):
        g = g.strip()
        if g in self.a.mesh.node_groups:
            return "{%s}" % "; ".join(sorted(self.node[c] for c in self.a.mesh.node_groups[g]))
        return "?" + g

    def flat(self, concept):
        """the statements of a load or support concept, one per designated object"""
        if concept.name in self.memo:
            return self.memo[concept.name]
        out = []
        for k, v in concept.kw.items():
            if k == "MODELE":
                continue
            for f in tup(v):
                if not isinstance(f, dict):
                    out.append("%s=%s" % (k, self.value(f)))
                elif k == "DDL_IMPO" or k == "FORCE_NODALE":
                    for n in self.a.nodes(f):
                        for d, x in f.items():
                            if d not in ("NOEUD", "GROUP_NO", "GROUP_MA", "MAILLE"):
                                out.append("%s %s %s=%s" % (k, self.node[n], d, self.value(x)))
                elif k == "LIAISON_DDL":
                    ns = self.a.nodes(f)
                    t = sorted(zip((self.node[n] for n in ns), tup(f["DDL"]), tup(f["COEF_MULT"])))
                    s = 1 if not t or t[0][2] >= 0 else -1
                    out.append("LIAISON_DDL %s = %s" % (" ".join("%s.%s*%s" % (n, d, num(s * c)) for n, d, c in t), num(s * f["COEF_IMPO"]) if not isinstance(f["COEF_IMPO"], Concept) else self.value(f["COEF_IMPO"])))
                elif k == "LIAISON_RBE3":
                    ns = [self.a.node_named(n) for n in tup(f.get("NOEUD_ESCL"))]
                    t = sorted(zip((self.node[n] for n in ns), tup(f["DDL_ESCL"]), tup(f["COEF_ESCL"])))
                    out.append("LIAISON_RBE3 %s %s <- %s" % ([self.node[self.a.node_named(n)] for n in tup(f.get("NOEUD_MAIT"))], self.value(f["DDL_MAIT"]), t))
                elif ("GROUP_MA" in f or "MAILLE" in f) and k not in ("LIAISON_MAIL", "LIAISON_SOLIDE"):
                    rest = self.value({a: b for a, b in f.items() if a not in ("GROUP_MA", "MAILLE")})
                    for c in self.a.cells(f):
                        out.append("%s %s on %s" % (k, rest, self.cell[c]))
                else:
                    out.append("%s %s" % (k, self.value(f)))
        self.memo[concept.name] = out
        return out

    def value(self, v, key=None):
        if isinstance(v, Concept):
            if v.cmd in LOADS:
                return "load(%s)" % sorted(self.flat(v))
            if v.cmd in ("DEFI_MATERIAU", "DEFI_COMPOSITE", "DEFI_FONCTION", "DEFI_CONSTANTE", "DEFI_LIST_REEL", "FORMULE"):
                return "%s%s" % (v.cmd, self.value(v.kw))
            if v.cmd == "CO" and v.name in self.proj:
                return "projection(%s)" % self.value(self.proj[v.name])
            if v.cmd in INLINE and v.cmd != "CO":
                return "%s%s" % (v.cmd, self.value(v.kw))
            return str(v.name)
        if isinstance(v, Expr):
            return repr(v)
        if isinstance(v, dict):
            return "(%s)" % ",".join("%s=%s" % (k, self.value(v[k], k)) for k in sorted(v) if k != "INTITULE")   # running number of an extraction
        if key in ("GROUP_MA", "SANS_GROUP_MA"):
            return str(sorted(self.group(g) for g in tup(v)))
        if key in ("GROUP_NO", "SANS_GROUP_NO"):
            return str(sorted(self.ngroup(g) for g in tup(v)))
        if key in ("NOEUD", "NOEUD_MAIT", "NOEUD_ESCL"):
            return str(sorted(self.node[self.a.node_named(g)] for g in tup(v)))
        if isinstance(v, (tuple, list)):
            xs = [self.value(x) for x in v]
            if v and all(isinstance(x, dict) for x in v):
                xs.sort()
            return "[%s]" % ",".join(xs)
        return num(v) if isinstance(v, (int, float)) else repr(v)


def systus(out):
    items = collections.Counter()
    for name in sorted(out.files):
        if not name.endswith(".ASC"):
            if name.endswith(".DAT"):
                for ln in out.files[name].decode("latin-1").split("\n"):
                    items["%s: %s" % (name.split("_", 1)[1], ln)] += 1
            continue
        tag = name.split("_", 1)[1]
        a = Asc(out.files[name].decode("latin-1"))
        P = {i: point(n[4]) for i, n in a.nodes.items()}
        vec = {i: "<%s>" % " ".join(num(x) for x in v) for i, v in a.vectors.items()}
        # the last number of a vector list refers to the load by number: keep its title
        title = {i: t for i, (t, v) in a.loads.items()}
        lst = {i: "{%s}" % "; ".join(sorted("%s:%s" % (title.get(l, l), vec.get(v)) for l, v in ps)) for i, ps in a.lists.items()}
        for i, (t, v) in a.loads.items():
            items["%s load %s %s" % (tag, t, vec.get(v))] += 1
        for i, (ic, ia, il, idp, xyz) in a.nodes.items():
            items["%s node %s %d %s %s %s" % (tag, P[i], ic, vec.get(ia), lst.get(il), lst.get(idp))] += 1
        el = {}
        for e in a.elems:
            (eid, dim, typ, n, mat, isol, ang, ns) = e
            rel = a.relations(e)
            if rel is not None:
                el[eid] = "relation [%s]" % " ".join(sorted(P[x] for x in ns))
                for r in rel:
                    t = sorted((P[x], d, c) for (x, d), c in r.items())
                    sg = 1 if not t or t[0][2] > 0 else -1
                    items["%s relation %s mat %s" % (tag, " ".join("%s.%d*%s" % (x, d, num(sg * c)) for x, d, c in t), sorted(
                        (k, num(v)) for k, v in a.materials[mat].items() if k not in (26, 182)))] += 1
                continue
            md = {k: v for k, v in a.materials.get(mat, {}).items() if k != 182}
            extra = ""
            if md.get(26, -1) > 0 and 61 not in md:
                # tabulated matrix: the number of the stiffness table, plus 10000 times that of the damping table
                t = int(md.pop(26))
                extra = " tables %s" % [[num(x) for x in a.tables.get(i, ["missing"])] if i else None for i in (t % 10000, t // 10000)]
            el[eid] = "%d%d%02d [%s]" % (dim, typ, n, " ".join(P[x] for x in ns))
            items["%s element %s mat %s %s %s" % (tag, el[eid], sorted((k, num(v)) for k, v in md.items()), lst.get(isol), ([num(x) for x in ang] if ang else None, extra))] += 1
        for g, (kind, xs) in a.groups.items():
            if g.startswith("CS_"):
                continue   # display group of what is left of a support set after supports that repeat others are dropped
            items["%s group {%s}" % (tag, "; ".join(sorted((P if kind == 1 else el)[x] for x in xs)))] += 1
        for vals, ns in a.masses:
            items["%s mass %s %s" % (tag, [num(x) for x in vals], [P[x] for x in ns])] += 1
    return items


def nastran(out):
    d = dk.parse_small(out.find("_vg.nas").decode("latin-1"))
    items = collections.Counter()
    sets = {}
    cc = []
    for ln in d["cc"]:
        if ln.strip() and not ln.strip().startswith("$"):
            ln = ln.split("$")[0].rstrip()
            if cc and cc[-1].endswith(","):
                cc[-1] += ln.strip()
            else:
                cc.append(ln)
    sub = ""
    for ln in cc:
        w = ln.split("=", 1)
        if w[0].split()[:1] == ["SET"] and len(w) == 2:
            sets[w[0].split()[1]] = ",".join(sorted(x.strip() for x in w[1].split(",")))
    for n in sets.values():
        items["set " + n] += 1
    for ln in cc:
        w = ln.split("=", 1)
        if ln.strip().startswith("SUBCASE"):
            sub = ln.strip()
        if w[0].split()[:1] == ["SET"]:
            continue
        if w[0].split("(")[0].strip() in ("DISP", "STRESS") and len(w) == 2:
            ln = "%s=%s" % (w[0].strip(), sorted(sets.get(x.strip(), x.strip()) for x in w[1].split(",")))
        items["case control %s: %s" % (sub, " ".join(ln.split()))] += 1
    # a property or material is described, not named
    mat, prop = {}, {}
    for c in d["cards"]:
        if c[0].startswith("MAT") and len(c) > 1:
            mat[str(c[1])] = "<%s>" % " ".join([c[0]] + [num(x) if isinstance(x, (int, float)) else str(x) for x in dk.strip_tail(list(c[2:]))])
    for c in d["cards"]:
        if c[0] in ("PROD", "PBAR", "PBEAM", "PSHELL", "PSOLID", "PIHEX", "PBUSH"):
            v = [num(x) if isinstance(x, (int, float)) else str(x) for x in dk.strip_tail(list(c[2:]))]
            if c[0] != "PBUSH" and v:
                v[0] = mat.get(v[0], v[0])
            if c[0] == "PSHELL" and len(v) > 2:
                v[2] = mat.get(v[2], v[2])
            prop[str(c[1])] = "<%s>" % " ".join([c[0]] + v)
    d["cards"] = [[c[0], c[1], mat.get(str(c[2]), c[2]) if c[0] == "CTETRA" and str(c[2]) not in prop else prop.get(str(c[2]), c[2])] + c[3:]
                  if c[0] in ("CROD", "CBAR", "CBEAM", "CTRIA3", "CTRIA6", "CQUAD4", "CQUAD8", "CTETRA", "CHEXA", "CPENTA", "CPYRA", "CIHEX1", "CIHEX2", "CBUSH") else
                  [prop[str(c[1])]] if c[0].startswith("P") and len(c) > 1 and str(c[1]) in prop and prop[str(c[1])].startswith("<" + c[0]) else
                  [mat[str(c[1])]] if c[0].startswith("MAT") else c for c in d["cards"]]
    for c in d["cards"]:
        v = [num(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else str(x) for x in dk.strip_tail(list(c))]
        if c[0] == "MPC":
            # (grid, component, coefficient) at fields 2-4, 5-7, then after two unused fields
            terms, k, i = [], 2, 0
            while k < len(v):
                terms.append(tuple((v[k:k + 3] + ["", ""])[:3]))
                i += 1
                k += 3 if i % 2 else 5
            v = v[:2] + ["%s.%s*%s" % t for t in sorted(terms)]
        elif c[0] == "RBE2":
            v = v[:4] + sorted(v[4:])
        elif c[0] == "RBE3":
            terms = sorted("%s/%s/%s" % tuple((v[k:k + 3] + ["", ""])[:3]) for k in range(5, len(v), 3))
            v = v[:5] + terms
        items[" ".join(v)] += 1
    return items


def content(target, out):
    if target == "ASTER":
        return AsterContent(out).items
    if target == "SYSTUS":
        return systus(out)
    return nastran(out)


def diff(a, b, limit=4):
    only_a, only_b = a - b, b - a
    if not only_a and not only_b:
        return []
    return ["first has %d items the second lacks, e.g. %s; second has %d items the first lacks, e.g. %s" % (
        sum(only_a.values()), [x[:240] for x in sorted(only_a)[:limit]], sum(only_b.values()), [x[:240] for x in sorted(only_b)[:limit]])]
