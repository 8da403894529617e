"""What a solver needs of its input files, whatever model they stand for."""
import math, re
from . import deck as dk
from .aster import Aster, AsterError
from .comm import CommError, Concept, concepts_in, tup
from .systus import Asc, AscError, SYSTUS_ORDER
from .med import MedError

SURF = {"TRI3", "QUAD4", "TRI6", "QUAD8", "QUAD9"}
NODES_OF = {"POINT1": 1, "SEG2": 2, "SEG3": 3, "TRI3": 3, "TRI6": 6, "QUAD4": 4, "QUAD8": 8, "QUAD9": 9, "TETRA4": 4, "TETRA10": 10,
            "PENTA6": 6, "PENTA15": 15, "HEXA8": 8, "HEXA20": 20, "PYRA5": 5, "PYRA13": 13}
DIM = {"POINT1": 0, "SEG2": 1, "SEG3": 1, "TRI3": 2, "TRI6": 2, "QUAD4": 2, "QUAD8": 2, "QUAD9": 2}
# modelling: (dimensions of the cells, has rotations, is it a finite element)
MODELS = {"3D": ((3, 2), False), "DKT": ((2,), True), "DST": ((2,), True), "Q4G": ((2,), True), "COQUE_3D": ((2,), True), "POU_D_E": ((1,), True), "POU_D_T": ((1,), True),
          "BARRE": ((1,), False), "DIS_T": ((0, 1), False), "DIS_TR": ((0, 1), True), "3D_SI": ((3, 2), False), "MEMBRANE": ((2,), False), "DKTG": ((2,), True)}
ROT = ("DRX", "DRY", "DRZ")


def numbers(v):
    if isinstance(v, bool):
        return
    if isinstance(v, (int, float)):
        yield float(v)
    elif isinstance(v, dict):
        for x in v.values():
            yield from numbers(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from numbers(x)


def dicts(v):
    if isinstance(v, dict):
        yield v
        for x in v.values():
            yield from dicts(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from dicts(x)


class AsterCheck:
    def __init__(self, o, base="d"):
        self.bad = []
        names = sorted(o.files)
        for s in (".comm", ".export", ".med"):
            if len([n for n in names if n.endswith(s)]) != 1:
                self.bad.append("files: %s in %s" % (s, names))
        if self.bad:
            return
        try:
            self.a = Aster(o)
        except (CommError, MedError, AsterError) as e:
            self.bad.append("unreadable: %s" % e)
            return
        self.export(o)
        self.mesh()
        self.names()
        self.values()
        self.groups()
        self.model()
        self.relations()
        self.loads()
        self.resu()

    def export(self, o):
        text = o.find(".export").decode("latin-1")
        have = {}
        for ln in text.split("\n"):
            t = ln.split()
            if t and t[0] in "FR" and len(t) == 5:
                have.setdefault(t[1], []).append((t[2], t[3], t[4]))
        for kind in ("comm", "mail", "mess"):
            if len(have.get(kind, ())) != 1:
                self.bad.append("export: %d %s files" % (len(have.get(kind, ())), kind))
        for kind, fs in have.items():
            for n, way, unit in fs:
                if way == "D" and n not in o.files:
                    self.bad.append("export: the %s file %s does not exist" % (kind, n))
        # the unit of the mesh file is the one the command file reads
        for n, kw in self.a.comm.all("LIRE_MAILLAGE"):
            if "UNITE" in kw and "mail" in have and str(kw["UNITE"]) != have["mail"][0][2]:
                self.bad.append("export: the mesh is read from unit %s, which is %s" % (kw["UNITE"], have["mail"]))

    def mesh(self):
        m = self.a.mesh
        for c, (t, ns) in m.cells.items():
            if t in NODES_OF and len(ns) != NODES_OF[t]:
                self.bad.append("mesh: cell %d %s with %d nodes" % (c, t, len(ns)))
            if len(set(ns)) != len(ns):
                self.bad.append("mesh: cell %d %s has a node twice" % (c, t))
            for n in ns:
                if not 0 <= n < len(m.coords):
                    self.bad.append("mesh: cell %d refers to node %d" % (c, n))
        for i, p in enumerate(m.coords):
            if not all(math.isfinite(x) and abs(x) < 1e200 for x in p):
                self.bad.append("mesh: node %d at %r" % (i, tuple(p)))
        for g in list(m.node_groups) + list(m.cell_groups):
            if len(g) > 24 or not g.strip():
                self.bad.append("mesh: group name %r" % g)
        for gs in m.families.values():
            if len(set(gs)) != len(gs):
                self.bad.append("mesh: a family lists a group twice: %s" % gs)

    def names(self):
        """the names of the concepts; that they are defined before their use, once, is seen by the reader of the commands"""
        for n, cmd, kw in self.a.comm.calls:
            if n is not None and not re.fullmatch(r"[A-Za-z][A-Za-z0-9_]{0,7}", n):
                self.bad.append("name: concept %s of %s" % (n, cmd))
        seen = {}
        for n, cmd, kw in self.a.comm.calls:
            if cmd in ("DEBUT", "POURSUITE", "FIN"):
                seen[cmd] = seen.get(cmd, 0) + 1
        if seen.get("DEBUT") != 1 or seen.get("FIN") != 1:
            self.bad.append("name: DEBUT and FIN %s" % seen)
        elif self.a.comm.calls[0][1] != "DEBUT" or self.a.comm.calls[-1][1] != "FIN":
            self.bad.append("name: commands outside DEBUT and FIN")

    def values(self):
        for n, cmd, kw in self.a.comm.calls:
            for x in numbers(kw):
                if not math.isfinite(x) or abs(x) > 1e200:
                    self.bad.append("value: %s in %s=%s" % (x, n, cmd))
        for n, kw in self.a.comm.all("DEFI_MATERIAU"):
            for k, v in kw.items():
                if isinstance(v, dict) and k == "ELAS" and "E" in v:
                    if v["E"] < 0:
                        self.bad.append("value: %s has E=%s" % (n, v["E"]))

    def groups(self):
        m = self.a.mesh
        for n, cmd, kw in self.a.comm.calls:
            if cmd in ("DETRUIRE",):
                continue
            for d in dicts(kw):
                for k, v in d.items():
                    for kind, table in (("GROUP_MA", m.cell_groups), ("GROUP_NO", m.node_groups)):
                        if k == kind or k.startswith(kind + "_"):
                            if not tup(v):
                                self.bad.append("group: %s of %s=%s is empty" % (k, n, cmd))
                            if len(set(tup(v))) != len(tup(v)):
                                self.bad.append("group-twice: %s of %s=%s names a group twice" % (k, n, cmd))
                            for g in tup(v):
                                if not isinstance(g, str) or not table.get(g.strip()):
                                    self.bad.append("group: %s=%r of %s=%s is not in the mesh" % (k, g, n, cmd))
                    if k == "NOEUD" or k.startswith("NOEUD_"):
                        if not tup(v):
                            self.bad.append("node: %s of %s=%s is empty" % (k, n, cmd))
                        for g in tup(v):
                            try:
                                self.a.node_named(g)
                            except (AsterError, AttributeError):
                                self.bad.append("node: %s=%r of %s=%s is not in the mesh" % (k, g, n, cmd))
                    if k == "MAILLE" or k.startswith("MAILLE_"):
                        if not tup(v):
                            self.bad.append("cell: %s of %s=%s is empty" % (k, n, cmd))
                        for g in tup(v):
                            try:
                                self.a.cell_named(g)
                            except (AsterError, AttributeError):
                                self.bad.append("cell: %s=%r of %s=%s is not in the mesh" % (k, g, n, cmd))

    # ------------------------------------------------------------ the finite elements
    def model(self):
        m = self.a.mesh
        self.fe = fe = {}
        am = self.a.comm.one("AFFE_MODELE")
        if am is None:
            self.bad.append("model: no AFFE_MODELE")
            return
        try:
            for d in tup(am.get("AFFE")):
                mod = d.get("MODELISATION")
                mod = tup(mod)[0] if mod else mod
                for c in self.a.cells(d):
                    if mod not in MODELS:
                        if d.get("PHENOMENE") == "MECANIQUE":
                            self.bad.append("model: modelling %s" % mod)
                        continue
                    dim = DIM.get(m.cells[c][0], 3)
                    if dim not in MODELS[mod][0]:
                        self.bad.append("model: cell %d (%s) modelled as %s" % (c, m.cells[c][0], mod))
                    fe[c] = mod
        except AsterError as e:
            self.bad.append("model: %s" % e)
            return
        if not fe:
            self.bad.append("model: no finite element")
        rot, tr = set(), set()
        for c, mod in fe.items():
            tr |= set(m.cells[c][1])
            if MODELS[mod][1]:
                rot |= set(m.cells[c][1])
        self.rot, self.tr = rot, tr
        # materials and characteristics
        try:
            mat = set()
            for n, kw in self.a.comm.all("AFFE_MATERIAU"):
                for d in tup(kw.get("AFFE")):
                    mat |= self.a.cells(d)
            car = {}
            for n, kw in self.a.comm.all("AFFE_CARA_ELEM"):
                for k in ("DISCRET", "POUTRE", "BARRE", "COQUE", "MASSIF"):
                    for d in tup(kw.get(k)):
                        for c in self.a.cells(d):
                            car.setdefault(c, []).append((k, d))
        except AsterError as e:
            self.bad.append("model: %s" % e)
            return
        for c, mod in sorted(fe.items()):
            want = {"DKT": "COQUE", "DST": "COQUE", "Q4G": "COQUE", "COQUE_3D": "COQUE", "DKTG": "COQUE", "POU_D_E": "POUTRE", "POU_D_T": "POUTRE", "BARRE": "BARRE",
                    "DIS_T": "DISCRET", "DIS_TR": "DISCRET"}.get(mod)
            got = [k for k, _ in car.get(c, ())]
            if want and want not in got:
                self.bad.append("car: cell %d (%s) has no %s characteristics: %s" % (c, mod, want, got))
            for k, d in car.get(c, ()):
                if want and k != want and k != "MASSIF":
                    self.bad.append("car: cell %d (%s) has %s characteristics" % (c, mod, k))
                if k == "DISCRET":
                    if d["CARA"].split("_")[1] not in ("T", "TR") or (mod == "DIS_T") != (d["CARA"].split("_")[1] == "T"):
                        self.bad.append("car: cell %d (%s) has %s" % (c, mod, d["CARA"]))
                    # nodal values on points, link values on segments
                    if ("N" if m.cells[c][0] == "POINT1" else "L") not in d["CARA"].split("_")[2:]:
                        self.bad.append("car: cell %d (%s) has %s" % (c, m.cells[c][0], d["CARA"]))
            skin = not want and m.cells[c][0] in SURF
            if want != "DISCRET" and not skin and c not in mat:
                self.bad.append("mat: cell %d (%s) has no material" % (c, mod))
        for c in car:
            if c not in fe:
                self.bad.append("car: cell %d has characteristics and no finite element" % c)
        # the number of values of a discrete element
        size = {"K_T_D_N": 3, "K_TR_D_N": 6, "K_T_D_L": 3, "K_TR_D_L": 6, "K_T_N": 6, "K_TR_N": 21, "K_T_L": 21, "K_TR_L": 78, "M_T_D_N": 1, "M_TR_D_N": 10, "M_T_N": 6,
                "M_TR_N": 21, "M_T_L": 21, "M_TR_L": 78, "A_T_D_N": 3, "A_TR_D_N": 6, "A_T_D_L": 3, "A_TR_D_L": 6, "A_T_N": 6, "A_TR_N": 21, "A_T_L": 21, "A_TR_L": 78,
                "M_T_D_L": 1, "M_TR_D_L": 4}
        for n, kw in self.a.comm.all("AFFE_CARA_ELEM"):
            for d in tup(kw.get("DISCRET")):
                if d["CARA"] not in size:
                    self.bad.append("car: %s" % d["CARA"])
                elif len(tup(d.get("VALE"))) != size[d["CARA"]] and d.get("SYME", "OUI") == "OUI":
                    self.bad.append("car: %s with %d values" % (d["CARA"], len(tup(d.get("VALE")))))
            for d in tup(kw.get("POUTRE")) + tup(kw.get("BARRE")):
                if len(tup(d.get("CARA"))) != len(tup(d.get("VALE"))):
                    self.bad.append("car: %s with values %s" % (d.get("CARA"), d.get("VALE")))

    # ------------------------------------------------------------ freedoms
    def has(self, node, ddl):
        return node in (self.rot if ddl in ROT else self.tr)

    def relations(self):
        if not hasattr(self, "rot"):
            return
        used = {c.name for _, cmd, kw in self.a.comm.calls if cmd != "DETRUIRE" for c in concepts_in(kw)}
        try:
            for n, kw in self.a.comm.all("AFFE_CHAR_MECA") + self.a.comm.all("AFFE_CHAR_MECA_F") + self.a.comm.all("AFFE_CHAR_CINE"):
                if n not in used:
                    continue
                for d in tup(kw.get("DDL_IMPO")) + tup(kw.get("MECA_IMPO")):
                    for i in self.a.nodes(d):
                        for k in d:
                            if k in ("DX", "DY", "DZ") + ROT and not self.has(i, k):
                                self.bad.append("freedom: %s imposes %s at node %d, which has none" % (n, k, i + 1))
                for d in tup(kw.get("LIAISON_DDL")):
                    nodes, ddl, co = tup(d.get("NOEUD")), tup(d.get("DDL")), tup(d.get("COEF_MULT"))
                    if not len(nodes) == len(ddl) == len(co) or not nodes:
                        self.bad.append("freedom: LIAISON_DDL of %s with %d nodes, %d freedoms, %d coefficients" % (n, len(nodes), len(ddl), len(co)))
                    for x, y in zip(nodes, ddl):
                        if not self.has(self.a.node_named(x), y):
                            self.bad.append("freedom: %s relates %s at node %s, which has none" % (n, y, x))
                for d in tup(kw.get("FORCE_NODALE")):
                    for i in self.a.nodes(d):
                        for k in d:
                            if k in ("FX", "FY", "FZ", "MX", "MY", "MZ") and not self.has(i, {"M": "DRX", "F": "DX"}[k[0]]):
                                self.bad.append("freedom: %s loads %s at node %d, which has none" % (n, k, i + 1))
        except AsterError:
            pass            # reported by groups()

    def loads(self):
        for n, cmd, kw in self.a.comm.calls:
            for d in dicts(kw):
                for c in tup(d.get("CHARGE")) if "CHARGE" in d else ():
                    if not isinstance(c, Concept) or c.cmd not in ("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F", "AFFE_CHAR_CINE", "DEFI_CONTACT"):
                        self.bad.append("charge: %s=%s uses %r as a load" % (n, cmd, c))
            if cmd in ("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F"):
                if not [k for k in kw if k not in ("MODELE", "INFO", "VERI_NORM")]:
                    self.bad.append("charge: %s defines nothing" % n)
                for k, v in kw.items():
                    if k not in ("MODELE", "INFO", "VERI_NORM", "INFO", "DOUBLE_LAGRANGE") and v is not None and not isinstance(v, str) and not tup(v):
                        self.bad.append("charge: %s has an empty %s" % (n, k))
                for k in ("PRES_REP", "FORCE_FACE", "FORCE_COQUE"):
                    for d in tup(kw.get(k)):
                        try:
                            for c in self.a.cells(d):
                                if self.a.mesh.cells[c][0] not in SURF:
                                    self.bad.append("charge: %s of %s on cell %d (%s)" % (k, n, c, self.a.mesh.cells[c][0]))
                                elif c not in self.fe:
                                    self.bad.append("charge: %s of %s on cell %d, which has no finite element" % (k, n, c))
                        except AsterError:
                            pass

    def resu(self):
        for n, cmd, kw in self.a.comm.calls:
            if cmd in ("MECA_STATIQUE", "STAT_NON_LINE", "DYNA_VIBRA", "CALC_MODES", "ASSEMBLAGE", "CALC_MATR_ELEM"):
                if "MODELE" in kw and not (isinstance(kw["MODELE"], Concept) and kw["MODELE"].cmd == "AFFE_MODELE"):
                    self.bad.append("result: %s=%s has MODELE=%r" % (n, cmd, kw["MODELE"]))
            if cmd == "MECA_STATIQUE":
                for d in tup(kw.get("EXCIT")):
                    if "CHARGE" not in d:
                        self.bad.append("result: EXCIT of %s without load" % n)


# ------------------------------------------------------------------------------------------------ Systus
def check_systus(o, topaze=False):
    bad = []
    names = set(o.files)
    alls = [n for n in names if n.endswith("_ALL.DAT")]
    if topaze:      # for Topaze each subcase is a model of its own
        reads = sorted(n for n in names if n.endswith(".DAT"))
        if alls or not reads:
            return ["files: %s" % sorted(names)]
        alls = ["no file"]
    else:
        if len(alls) != 1:
            return ["files: %s" % sorted(names)]
        reads = []
        for ln in o.files[alls[0]].decode("latin-1").split("\n"):
            t = ln.split()
            if t and t[0] == "READ":
                reads.append(t[1])
    if not reads:
        bad.append("dat: %s reads nothing" % alls[0])
    if len(set(reads)) != len(reads):
        bad.append("dat: %s reads a file twice: %s" % (alls[0], reads))
    ascs = {n for n in names if n.endswith(".ASC")}
    used = set()
    for r in reads:
        if r not in names:
            bad.append("dat: %s reads %s, which does not exist" % (alls[0], r))
            continue
        text = o.files[r].decode("latin-1").replace("###TOPAZE###", "")
        name, searched, funcs, saved = None, [], [], set()
        for ln in text.split("\n"):
            t = ln.split()
            if not t or t[0].startswith("#"):
                continue
            if t[0] == "NAME":
                name = t[1]
            if t[:2] == ["SAVE", "DATA"]:
                saved.add(t[-1])
            if t[:2] == ["SEARCH", "DATA"] and t[-1] not in saved:
                t = [x for x in t if x != "RESU"]
                searched.append((name, int(t[2])))
            if "FUNCTION" in t:
                k = t.index("FUNCTION")
                if k + 1 < len(t) and t[k + 1].lstrip("-").isdigit():
                    funcs.append(int(t[k + 1]))
        if not searched:
            bad.append("dat: %s has no data" % r)
        tables = set()
        for nm, k in searched:
            f = "%sDATA%d.ASC" % (nm, k)
            if f not in names:
                bad.append("dat: %s asks for %s, which does not exist" % (r, f))
                continue
            used.add(f)
            try:
                a = Asc(o.files[f].decode("latin-1"))
                tables |= set(a.tables)
            except (AscError, ValueError, KeyError, IndexError):
                pass
        for n in funcs:
            if n not in tables:
                bad.append("dat: %s uses function %d, which is not among the tables %s" % (r, n, sorted(tables)))
    for n in sorted(ascs - used):
        bad.append("dat: no data file reads %s" % n)
    for n in sorted(ascs):
        try:
            a = Asc(o.files[n].decode("latin-1"))
        except (AscError, ValueError, KeyError, IndexError) as e:
            bad.append("unreadable: %s: %s" % (n, e))
            continue
        bad += a.consistency()
        bad += asc_semantics(a)
    return bad


def asc_semantics(a):
    bad = []
    for n, (ic, ia, il, idp, xyz) in a.nodes.items():
        if n <= 0:
            bad.append("node: id %d" % n)
        if not all(math.isfinite(x) and abs(x) < 1e200 for x in xyz):
            bad.append("value: node %d at %r" % (n, xyz))
        if ic >> a.nbdofs:
            bad.append("node: %d has constraint code %d with %d freedoms" % (n, ic, a.nbdofs))
    for m, d in a.materials.items():
        for k, x in d.items():
            if not math.isfinite(x) or abs(x) > 1e200:
                bad.append("value: material %d key %d = %s" % (m, k, x))
        if 26 in d and int(d[26]) not in a.tables:
            bad.append("material: %d refers to missing table %d" % (m, int(d[26])))
    for m, d in a.vectors.items():
        if not all(math.isfinite(x) and abs(x) < 1e200 for x in d):
            bad.append("value: vector %d = %s" % (m, d))
    for m, d in a.tables.items():
        if not all(math.isfinite(x) and abs(x) < 1e200 for x in d):
            bad.append("value: table %d = %s" % (m, d[:20]))
    for (eid, dim, typ, n, mat, isol, ang, ns) in a.elems:
        if ang and not all(math.isfinite(x) and abs(x) < 1e200 for x in ang):
            bad.append("value: element %d angles %s" % (eid, ang))
        if eid <= 0:
            bad.append("element: id %d" % eid)
    vals = {}
    for l, ps in a.lists.items():
        if not ps:
            bad.append("list: %d is empty" % l)
        if len(set(ps)) != len(ps):
            bad.append("list: %d has an entry twice: %s" % (l, ps))
    for i, (g, (kind, xs)) in enumerate(a.groups.items()):
        if not xs:
            bad.append("group: %s is empty" % g)
        if kind not in (1, 2):
            bad.append("group: %s has kind %d" % (g, kind))
    for vals, ns in a.masses:
        if not all(math.isfinite(x) and abs(x) < 1e200 for x in vals):
            bad.append("value: mass %s" % vals)
    # relation elements have a table of the right size
    for e in a.elems:
        try:
            a.relations(e)
        except AscError as x:
            bad.append("relation: %s" % x)
    return bad


# ------------------------------------------------------------------------------------------------ Nastran
def check_nastran(o):
    from .deckcheck import OutputInvalid, read_nas
    from . import analysis
    try:
        s = read_nas(o)
    except (OutputInvalid, ValueError) as e:
        return ["unreadable: %s" % e]
    bad = []
    by = s.by

    def ids(*names):
        return {c[1] for n in names for c in by.get(n, ())}
    # unique identifiers
    for kinds in (("GRID", "SPOINT"), tuple(n for n in by if n in s_elems), ("MAT1", "MAT2", "MAT8"), tuple(n for n in by if n.startswith("P") and n in s_props)):
        seen = set()
        for n in kinds:
            for c in by.get(n, ()):
                for x in (c[1:] if n == "SPOINT" else c[1:2]):
                    if x is None:
                        continue
                    if x in seen:
                        bad.append("id: %s %s twice" % (n, x))
                    seen.add(x)
    spcs = ids("SPC", "SPC1", "SPCD", "SPCADD")
    real_spcs = ids("SPC", "SPC1", "SPCADD")
    loads = ids("FORCE", "MOMENT", "FORCE1", "FORCE2", "MOMENT1", "MOMENT2", "PLOAD", "PLOAD1", "PLOAD2", "PLOAD4", "GRAV", "RFORCE", "SPCD", "SLOAD", "LOAD", "TEMP", "TEMPD", "DAREA", "LSEQ")
    mpcs = ids("MPC", "MPCADD")
    for c in by.get("SPCADD", ()):
        for x in c[2:]:
            if x is not None and x not in real_spcs:
                bad.append("set: SPCADD %s names SPC set %s, which is not defined" % (c[1], x))
    for c in by.get("MPCADD", ()):
        for x in c[2:]:
            if x is not None and x not in mpcs:
                bad.append("set: MPCADD %s names MPC set %s, which is not defined" % (c[1], x))
    for c in by.get("LOAD", ()):
        for k in range(4, len(c), 2):
            if c[k] is not None and c[k] not in loads:
                bad.append("set: LOAD %s names load set %s, which is not defined" % (c[1], c[k]))
    # the case control
    sets, cur = set(), None
    subs = set()
    for ln in s.deck["cc"]:
        t = re.split(r"[=,\s]+", ln.strip())
        if not t or not t[0]:
            continue
        k = t[0].upper()
        if k == "SET":
            sets.add(t[1])
        elif k == "SUBCASE":
            if t[1] in subs:
                bad.append("case: SUBCASE %s twice" % t[1])
            subs.add(t[1])
        elif k in ("SPC", "LOAD", "MPC", "METHOD"):
            table = {"SPC": real_spcs, "LOAD": loads, "MPC": mpcs, "METHOD": ids("EIGRL", "EIGR", "EIGB")}[k]
            if int(t[1]) not in table:
                bad.append("case: %s=%s is not defined" % (k, t[1]))
        elif re.match(r"(DISP|VELO|ACCE|STRESS|STRAIN|FORCE|SPCF|ELFO|OLOAD|MPCF)", k):
            v = t[-1]
            if v.isdigit() and v not in sets:
                bad.append("case: %s names SET %s, which is not defined before" % (ln.strip(), v))
    return bad


s_elems = {"CBAR", "CBEAM", "CROD", "CONROD", "CTUBE", "CQUAD4", "CTRIA3", "CQUAD8", "CTRIA6", "CQUAD", "CHEXA", "CPENTA", "CTETRA", "CPYRAM", "CIHEX1", "CIHEX2", "CELAS1", "CELAS2",
           "CMASS2", "CDAMP1", "CONM1", "CONM2", "CBUSH", "CGAP", "RBE2", "RBE3", "RBAR", "RBAR1", "CRIGD1", "RROD", "CQUADR", "CTRIAR", "CELAS4", "CMASS4"}
s_props = {"PBAR", "PBARL", "PBEAM", "PBEAML", "PROD", "PTUBE", "PSHELL", "PCOMP", "PSOLID", "PIHEX", "PELAS", "PBUSH", "PGAP", "PDAMP"}


def check(target, o, opts=()):
    if target == "ASTER":
        return AsterCheck(o).bad
    if target == "SYSTUS":
        return check_systus(o, any("topaze" in x for x in opts))
    return check_nastran(o)
