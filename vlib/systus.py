"""Reads the Systus ASC file by its section layout."""
import shlex


class AscError(Exception):
    pass


class Asc:
    """header: {option, nnodes, ncells, nloads, nbdofs}; nodes: {id: (iconst, iangl, isol, idisp, xyz)} in file order;
    elems: [(id, dim, type, n, mat, isol, angles or None, nodes)]; groups: {name: (kind, [ids])};
    materials: {id: {key: value}}; loads: {id: (title, vector)}; lists: {id: [(load, vec)]}; vectors: {id: [..]}; masses: [(vals, nodes)]"""

    def __init__(self, text):
        lines = text.split("\n")
        self.title = lines[1].strip()
        h = lines[2].split()
        if h[0] != "100000":
            raise AscError("header")
        self.option, self.nnodes, self.ncells, self.nloads, self.nbdofs, self.kpc = (int(x) for x in h[1:7])
        sec, order = {}, []
        i = 3
        while i < len(lines):
            ln = lines[i].strip()
            if ln.startswith("BEGIN_"):
                name = ln.split()[0][6:]
                body = []
                i += 1
                while i < len(lines) and not lines[i].strip().startswith("END_"):
                    if lines[i].strip():
                        body.append(lines[i])
                    i += 1
                if i >= len(lines) or lines[i].strip() != "END_" + name:
                    raise AscError("section %s not closed" % name)
                sec[name] = ([int(x) for x in ln.split()[1:]], body)
                order.append(name)
            elif ln:
                raise AscError("text outside sections: %r" % ln)
            i += 1
        self.sec = sec
        self.lcode = [int(x) for x in sec["INFORMATIONS"][1][2].split()]
        self.ncode = [int(x) for x in sec["INFORMATIONS"][1][1].split()]
        self.nodes = {}
        for ln in sec["NODES"][1]:
            t = ln.split()
            nid = int(t[0])
            if nid in self.nodes:
                raise AscError("node %d twice" % nid)
            if len(t) != 9:
                raise AscError("node line %r" % ln)
            self.nodes[nid] = (int(t[1]), int(t[3]), int(t[4]), int(t[5]), tuple(float(x) for x in t[6:9]))
        self.elems = []
        for ln in sec["ELEMENTS"][1]:
            t = ln.split()
            code = t[1]
            dim, typ, n = int(code[:-3]), int(code[-3]), int(code[-2:])
            k = int(t[4])
            ang = [float(x) for x in t[5:5 + k]] if k else None
            self.elems.append((int(t[0]), dim, typ, n, int(t[2]), int(t[3]), ang, [int(x) for x in t[5 + k:]]))
        self.groups = {}
        self.group_comment = {}
        for ln in sec["GROUPS"][1]:
            t = shlex.split(ln)
            if t[1] in self.groups:
                raise AscError("group %s twice" % t[1])
            self.groups[t[1]] = (int(t[2]), [int(x) for x in t[7:]])
            self.group_comment[t[1]] = t[4], t[6]
        self.materials = {}
        self.nmatvals = 0
        for ln in sec["MATERIALS"][1]:
            t = ln.split()
            d = {}
            for k in range(2, len(t), 2):
                d[int(t[k])] = float(t[k + 1])
                self.nmatvals += 1
            if int(t[0]) in self.materials:
                raise AscError("material twice")
            self.materials[int(t[0])] = d
        self.loads = {}
        for ln in sec["LOADS"][1]:
            t = shlex.split(ln)
            self.loads[int(t[0])] = (t[1], int(t[3]))
        self.lists = {}
        for ln in sec["LISTS"][1]:
            t = [int(x) for x in ln.split()]
            self.lists[t[0]] = [(t[k], t[k + 1]) for k in range(1, len(t), 2)]
        self.vectors = {}
        for ln in sec["VECTORS"][1]:
            t = ln.split()
            self.vectors[int(t[0])] = [float(x) for x in t[1:]]
        self.tables = {}
        for ln in sec["TABLES"][1]:
            t = ln.split()
            if int(t[0]) in self.tables:
                raise AscError("table twice")
            self.tables[int(t[0])] = [float(x) for x in t[2:]]
        self.masses = []
        for ln in sec["MASSES"][1]:
            t = ln.split()
            k = int(t[1])
            self.masses.append(([float(x) for x in t[2:2 + k]], [int(x) for x in t[2 + k:]]))

    def relations(self, elem):
        """an element that stands for linear relations: [{(node, dof 0..5): coefficient}] or None"""
        eid, dim, typ, n, mat, isol, ang, ns = elem
        m = self.materials.get(mat, {})
        if m.get(61) not in (9, 19) or m.get(197) != 0 or 26 not in m:
            return None
        t = self.tables.get(int(m[26]))
        if t is None:
            raise AscError("element %d refers to missing table %d" % (eid, int(m[26])))
        nn = len(ns)
        if m[61] == 19:
            nn -= 1
        w = nn * self.nbdofs
        if not t or len(t) % w:
            raise AscError("table %d has %d values for %d nodes" % (int(m[26]), len(t), nn))
        return [{(ns[k // self.nbdofs], k % self.nbdofs): t[e + k] for k in range(w) if t[e + k]} for e in range(0, len(t), w)]

    def consistency(self):
        """declared counts and references"""
        bad = []
        s = self.sec

        def count(name, what, n):
            if s[name][0][what] != n:
                bad.append("count: %s declares %d, has %d" % (name, s[name][0][what], n))
        if self.nnodes != len(self.nodes):
            bad.append("count: header nodes %d, has %d" % (self.nnodes, len(self.nodes)))
        if self.ncells != len(self.elems):
            bad.append("count: header cells %d, has %d" % (self.ncells, len(self.elems)))
        if self.nloads != len(self.loads):
            bad.append("count: header loads %d, has %d" % (self.nloads, len(self.loads)))
        count("NODES", 0, len(self.nodes))
        count("ELEMENTS", 0, len(self.elems))
        count("GROUPS", 0, len(self.groups))
        count("MATERIALS", 0, len(self.materials))
        count("MATERIALS", 1, self.nmatvals)
        count("LOADS", 0, len(self.loads))
        count("LISTS", 0, len(self.lists))
        count("LISTS", 1, sum(len(v) for v in self.lists.values()))
        count("VECTORS", 0, len(self.vectors))
        count("MASSES", 0, len(self.masses))
        count("TABLES", 0, len(self.tables))
        ids = set()
        for (eid, dim, typ, n, mat, isol, ang, ns) in self.elems:
            if eid in ids:
                bad.append("element: id %d twice" % eid)
            ids.add(eid)
            if len(ns) != n:
                bad.append("element: %d announces %d nodes, lists %d" % (eid, n, len(ns)))
            for x in ns:
                if x not in self.nodes:
                    bad.append("element: %d refers to missing node %d" % (eid, x))
            if mat not in self.materials:
                bad.append("element: %d refers to missing material %d" % (eid, mat))
            if isol and isol not in self.lists:
                bad.append("element: %d refers to missing list %d" % (eid, isol))
        for nid, (ic, ia, il, idp, _) in self.nodes.items():
            for x in (il, idp):
                if x and x not in self.lists:
                    bad.append("node: %d refers to missing list %d" % (nid, x))
            if ia and ia not in self.vectors:
                bad.append("node: %d refers to missing vector %d" % (nid, ia))
        for l, ps in self.lists.items():
            for ld, v in ps:
                if ld not in self.loads:
                    bad.append("list: %d refers to missing load %d" % (l, ld))
                if v not in self.vectors:
                    bad.append("list: %d refers to missing vector %d" % (l, v))
        for l, (_, v) in self.loads.items():
            if v and v not in self.vectors:
                bad.append("load: %d refers to missing vector %d" % (l, v))
        for g, (kind, xs) in self.groups.items():
            if len(set(xs)) != len(xs):
                bad.append("group: %s lists a member twice" % g)
            for x in xs:
                if (kind == 1 and x not in self.nodes) or (kind == 2 and x not in ids):
                    bad.append("group: %s refers to missing member %d" % (g, x))
        for vals, ns in self.masses:
            for x in ns:
                if x not in self.nodes:
                    bad.append("mass: refers to missing node %d" % x)
        return bad


SYSTUS_ORDER = {   # positions in the Nastran list: corners and mid-side nodes alternate around the base, then the verticals, then the top
    "POINT1": [0], "SEG2": [0, 1], "TRI3": [0, 1, 2], "TRI6": [0, 3, 1, 4, 2, 5], "QUAD4": [0, 1, 2, 3],
    "QUAD8": [0, 4, 1, 5, 2, 6, 3, 7], "TETRA4": [0, 1, 2, 3], "TETRA10": [0, 4, 1, 5, 2, 6, 7, 8, 9, 3],
    "PENTA6": [0, 1, 2, 3, 4, 5], "PENTA15": [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14],
    "HEXA8": list(range(8)), "HEXA20": [0, 8, 1, 9, 2, 10, 3, 11, 12, 13, 14, 15, 4, 16, 5, 17, 6, 18, 7, 19],
    "PYRA5": [0, 1, 2, 3, 4, 4, 4, 4],
}
