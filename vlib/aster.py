"""The model described by a Code_Aster command file and its MED mesh."""
from . import comm as _comm, med as _med
from .comm import tup


class AsterError(Exception):
    pass


class Aster:
    def __init__(self, out):
        c, m = out.find(".comm"), out.find(".med")
        if c is None or m is None:
            raise AsterError("missing .comm or .med")
        self.comm = _comm.Comm(c.decode("latin-1"))
        self.mesh = _med.loads(m)

    # ------------------------------------------------------------ names
    def node_named(self, n):
        n = n.strip()
        if not n.startswith("N") or not n[1:].isdigit() or not 1 <= int(n[1:]) <= len(self.mesh.coords):
            raise AsterError("unknown node %r" % n)
        return int(n[1:]) - 1

    def cell_named(self, n):
        n = n.strip()
        if not n.startswith("M") or not n[1:].isdigit() or int(n[1:]) not in self.mesh.cells:
            raise AsterError("unknown cell %r" % n)
        return int(n[1:])

    def cells(self, kw):
        """set of cell numbers designated by TOUT/GROUP_MA/MAILLE"""
        out = set()
        if kw.get("TOUT") == "OUI":
            out |= set(self.mesh.cells)
        for g in tup(kw.get("GROUP_MA")):
            g = g.strip()
            if g not in self.mesh.cell_groups:
                raise AsterError("unknown or empty GROUP_MA %r" % g)
            out |= self.mesh.cell_groups[g]
        for n in tup(kw.get("MAILLE")):
            out.add(self.cell_named(n))
        return out

    def nodes(self, kw, suffix=""):
        """list of node indices designated by TOUT/GROUP_NO/NOEUD/GROUP_MA, duplicates kept for lists of nodes"""
        out = []
        if kw.get("TOUT") == "OUI":
            out += range(len(self.mesh.coords))
        for g in tup(kw.get("GROUP_NO" + suffix)):
            g = g.strip()
            if g not in self.mesh.node_groups:
                raise AsterError("unknown or empty GROUP_NO %r" % g)
            out += sorted(self.mesh.node_groups[g])
        for n in tup(kw.get("NOEUD" + suffix)):
            out.append(self.node_named(n))
        if not suffix and ("GROUP_MA" in kw or "MAILLE" in kw):
            for c in sorted(self.cells({k: kw[k] for k in ("GROUP_MA", "MAILLE") if k in kw})):
                for x in self.mesh.cells[c][1]:
                    if x not in out:
                        out.append(x)
        return out

    # ------------------------------------------------------------ correspondence with the deck
    def match(self, sem, tol=1e-9):
        """self.idx: grid id -> node index. Positions of the grids are assumed distinct."""
        key = {}
        for j, p in enumerate(self.mesh.coords):
            key.setdefault(tuple(round(x / 1e-6) for x in p), []).append(j)
        self.idx, self.fails = {}, []
        for i, p in sem.nodes.items():
            js = key.get(tuple(round(float(x) / 1e-6) for x in p), [])
            if len(js) == 0:
                self.fails.append("node: grid %d at %s is not in the mesh" % (i, tuple(p)))
            else:
                self.idx[i] = js[0]
        self.grid = {j: i for i, j in self.idx.items()}
        return self.fails

    def match_cells(self, sem):
        """self.cell: eid -> cell number, by node set"""
        by = {}
        for n, (t, ns) in self.mesh.cells.items():
            by.setdefault((t, frozenset(ns)), []).append(n)
        self.cell, self.celldup = {}, {}
        for e in sem.elems.values():
            try:
                k = (e.topo, frozenset(self.idx[n] for n in e.nodes))
            except KeyError:
                continue
            got = by.get(k, [])
            if got:
                self.cell[e.eid] = got[0]
                self.celldup[e.eid] = got
        self.eid = {c: e for e, c in self.cell.items()}
