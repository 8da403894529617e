"""C04: every element is written once, with its type, nodes and property."""
import re, sys
from vlib import aster, deck as dk, engine, gen, systus, topo
from vlib.deckcheck import DeckCheck, read_nas
from vlib.sem import BASIC


class C04(DeckCheck):
    prop = "C04"
    rule = ("Decks with 1-25 solid, shell, bar, beam and rod elements of every supported card and topology (linear and quadratic), sharing or "
            "not their properties and nodes, random identifiers, plus sets of grids and elements, in a random card order, sent to Code_Aster, Systus or Nastran "
            "(both dialects). Non-trivial: at least two elements with different properties or topologies, or a set.")
    assumptions = ["a solid element may be listed from any of its equivalent corners; other elements must keep their first node and sense",
                   "Systus has no 13-node pyramid and no composite or orthotropic section: those decks go to the other targets",
                   "elements are recognised in the MED file by their node positions, which are distinct"]
    quick_n, thorough_n = 6000, 120000
    targets = ("ASTER", "ASTER", "SYSTUS", "NASTRAN", "COSMIC")

    def gen(self, r):
        b = gen.B(r)
        t = r.choice(self.targets)
        b.target = t
        n = r.choice([1, 2, 4, 8, 15, 25])
        b.elements(n)
        if r.random() < .6:
            for _ in range(r.randint(1, 3)):
                sid = b.id("set")
                if r.random() < .5:
                    pool, des = list(b.nodes), "GRID"
                else:
                    pool, des = list(b.elem), "ELEM"
                m = r.sample(pool, r.randint(1, min(len(pool), r.choice([3, 8, 20]))))
                if r.random() < .4:
                    m = self.thru(b, r, pool)
                b.add("SET3", sid, des, *m)
        r.shuffle(b.cards)
        return {"deck": b.deck(), "target": t}

    @staticmethod
    def thru(b, r, pool):
        """an interval all of whose members exist"""
        s = set(pool)
        a = r.choice(sorted(s))
        z = a
        while z + 1 in s:
            z += 1
        if z - a < 2:
            return [a]
        if r.random() < .3:
            return [a, "THRU", z, "BY", r.choice([2, 3, 5])]
        if r.random() < .2:
            return [z, "THRU", a]
        return [a, "THRU", z]

    def compare(self, case, s, o):
        s.props()
        t = case["target"]
        f = {"ASTER": self.aster, "SYSTUS": self.systus}.get(t, self.nastran)(case, s, o)
        tags = self.tags(case, s) + ["card:" + e.card for e in s.elems.values()] + ["topo:" + e.topo for e in s.elems.values()]
        sets = s.by.get("SET3", [])
        tags += ["set:" + c[2] for c in sets] + (["set:thru"] if any("THRU" in c for c in sets) else [])
        nt = len({(e.topo, e.pid) for e in s.elems.values()}) > 1 or bool(sets)
        return engine.Outcome(f, tags, nt)

    @staticmethod
    def members(c):
        from vlib.sem import expand
        return set(expand(c[3:]))

    def aster(self, case, s, o):
        a = aster.Aster(o)
        f = list(a.match(s))
        a.match_cells(s)
        m = a.mesh
        for e in s.elems.values():
            if e.eid not in a.cell:
                f.append("element-missing: %s %d (%s)" % (e.card, e.eid, e.topo))
                continue
            if len(a.celldup[e.eid]) != 1 + bool(s.nsm(e)):
                f.append("element-duplicated: %s %d is in the mesh %d times" % (e.card, e.eid, len(a.celldup[e.eid])))
            for c in a.celldup[e.eid]:
                a.eid[c] = e.eid
                got = [a.grid.get(x) for x in topo.nastran_list(e.topo, m.cells[c][1])]
                if not topo.same(e.topo, e.nodes, got):
                    f.append("connectivity: %s %d is %s, written as %s (in the Nastran order)" % (e.card, e.eid, e.nodes, got))
        if len(m.cells) != len(a.eid):
            f.append("element-count: %d cells in the mesh, %d elements in the deck" % (len(m.cells), len(s.elems)))
        # parts: every group the model uses holds elements of one property, every element is in one
        where = {}
        for kw in [k for c in a.comm.all("AFFE_MODELE") for k in aster.tup(c[1].get("AFFE"))]:
            cs = a.cells(kw)
            pids = {s.elems[a.eid[c]].pid if s.elems[a.eid[c]].card != "CONROD" else ("CONROD", a.eid[c]) for c in cs if c in a.eid}
            if len(pids) > 1:
                f.append("part: one part of the model mixes properties %s" % (sorted(map(str, pids))))
            for c in cs:
                where[c] = where.get(c, 0) + 1
        for c, e in a.eid.items():
            if where.get(c) != 1:
                f.append("part: cell %d of element %d is in %d parts" % (c, e, where.get(c, 0)))
        for c in s.by.get("SET3", []):
            name, want = "SET3_%d" % c[1], self.members(c)
            got = {a.grid.get(x) for x in m.node_groups.get(name, ())} if c[2] == "GRID" else {a.eid.get(x) for x in m.cell_groups.get(name, ())}
            if got != want:
                f.append("set: %s %s should be %s, is %s" % (name, c[2], sorted(want), sorted(map(str, got))))
        return f

    def systus(self, case, s, o):
        f = []
        ascs = [systus.Asc(o.files[n].decode("latin-1")) for n in sorted(o.files) if n.endswith(".ASC")]
        if not ascs:
            return ["no-output: no ASC file"]
        for a in ascs:
            el = {x[0]: x for x in a.elems}
            if len(el) != len(a.elems):
                f.append("element-duplicated: an element id appears twice")
            twin = {frozenset(e.nodes) for e in s.elems.values() if s.nsm(e)}      # a second element carries the non-structural mass
            extra = [x for x in el if x not in s.elems and frozenset(el[x][7]) in twin]
            if len(extra) != sum(bool(s.nsm(e)) for e in s.elems.values()):
                f.append("element-duplicated: %d extra elements" % len(extra))
            for x in extra:
                del el[x]
            if set(el) != set(s.elems):
                f.append("element-set: missing %s, invented %s" % (sorted(set(s.elems) - set(el)), sorted(set(el) - set(s.elems))))
            for e in s.elems.values():
                if e.eid not in el:
                    continue
                _, dim, typ, n, mat, isol, ang, ns = el[e.eid]
                order = systus.SYSTUS_ORDER[e.topo]
                fam = topo.family(e.topo)
                wd = 3 if fam in ("TETRA", "PYRA", "PENTA", "HEXA") else 2 if fam in ("TRI", "QUAD") else 1
                if dim != wd or n != len(ns) or len(ns) != len(order):
                    f.append("topology: %s %d (%s) written as %d%d%02d with %d nodes" % (e.card, e.eid, e.topo, dim, typ, n, len(ns)))
                    continue
                if not any([e.nodes[p[k]] for k in order] == ns for p in topo.rotations(e.topo)):
                    f.append("connectivity: %s %d is %s, written as %s" % (e.card, e.eid, e.nodes, ns))
            # parts
            where = {}
            for g, (k, ms) in a.groups.items():
                if k == 2 and not g.startswith("SET3"):
                    pids = {s.elems[x].pid if s.elems[x].card != "CONROD" else ("CONROD", x) for x in ms if x in s.elems}
                    if len(pids) > 1:
                        f.append("part: group %s mixes properties %s" % (g, sorted(map(str, pids))))
                    for x in ms:
                        where.setdefault(x, []).append(g)
            offset = {e.pid for e in s.elems.values() if e.zoffs}       # such shells are split and lose their part; the offset is announced as ignored
            for e in s.elems.values():
                if len(where.get(e.eid, ())) != 1 and not (e.pid in offset and e.eid not in where):
                    f.append("part: element %d is in parts %s" % (e.eid, where.get(e.eid)))
            mats = {}
            for x in a.elems:
                if x[0] in s.elems:
                    e = s.elems[x[0]]
                    mats.setdefault(x[4], set()).add(e.pid if e.card != "CONROD" else ("CONROD", e.eid))
            for m, ps in mats.items():
                if len(ps) > 1:
                    f.append("part: material %d is shared by properties %s" % (m, sorted(map(str, ps))))
            for c in s.by.get("SET3", []):
                name, want = "SET3_%d" % c[1], self.members(c)
                if c[2] == "ELEM" and name not in a.groups:
                    continue        # only groups of grids are announced as carried over by this writer
                k, ms = a.groups.get(name, (0, []))
                if set(ms) != want or k != (1 if c[2] == "GRID" else 2):
                    f.append("set: %s %s should be %s, is %s" % (name, c[2], sorted(want), sorted(ms)))
        return f

    def nastran(self, case, s, o):
        f = []
        s2 = read_nas(o)
        if set(s2.elems) != set(s.elems):
            f.append("element-set: missing %s, invented %s" % (sorted(set(s.elems) - set(s2.elems)), sorted(set(s2.elems) - set(s.elems))))
        cosmic = case["target"] == "COSMIC"
        for i, e in s.elems.items():
            g = s2.elems.get(i)
            if g is None:
                continue
            if g.topo != e.topo:
                f.append("topology: %s %d (%s) written as %s" % (e.card, i, e.topo, g.topo))
            elif not topo.same(e.topo, e.nodes, g.nodes):
                f.append("connectivity: %s %d is %s, written as %s" % (e.card, i, e.nodes, g.nodes))
            if e.card == "CONROD":
                continue
            if g.pid != e.pid and not (cosmic and g.card == "CTETRA"):
                f.append("part: %s %d has property %s, written with %s" % (e.card, i, e.pid, g.pid))
        # sets are written in the case control section
        text = o.find("_vg.nas").decode("latin-1").split("BEGIN BULK")[0]
        text = re.sub(r",\s*\n", ",", text)
        sets = [set(int(x) for x in m.group(1).split(",") if x.strip()) for m in re.finditer(r"SET \d+ = ([\d, \n]*)\$ SET3", text)]
        want = [self.members(c) for c in s.by.get("SET3", [])]
        if sorted(map(sorted, sets)) != sorted(map(sorted, want)):
            f.append("set: expected %s, written %s" % (sorted(map(sorted, want)), sorted(map(sorted, sets))))
        return f


if __name__ == "__main__":
    sys.exit(engine.run(C04()))
