"""Orderings of element nodes: when do two listings denote the same oriented element?"""
from functools import lru_cache
from .sem import EDGES_NAS, med_order

REF = {
    "TETRA": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "PYRA": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (.5, .5, 1)],
    "PENTA": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
    "HEXA": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
}
CORNER_EDGES = {
    "TETRA": [(0, 1), (1, 2), (0, 2), (0, 3), (1, 3), (2, 3)],
    "PYRA": [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
    "PENTA": [(0, 1), (1, 2), (2, 0), (0, 3), (1, 4), (2, 5), (3, 4), (4, 5), (5, 3)],
    "HEXA": [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 5), (2, 6), (3, 7), (4, 5), (5, 6), (6, 7), (7, 4)],
}


def family(topo):
    return topo.rstrip("0123456789")


def det(a, b, c):
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


@lru_cache(None)
def rotations(topo):
    """orientation-preserving symmetries as permutations of the Nastran list"""
    fam = family(topo)
    if fam not in REF:
        return [tuple(range(int(topo[len(fam):])))]
    pts, edges = REF[fam], {frozenset(e) for e in CORNER_EDGES[fam]}
    n = len(pts)
    adj = {i: [j for j in range(n) if frozenset((i, j)) in edges] for i in range(n)}
    out = []

    def sign(p):
        # a corner with three edges, mapped
        i = 0 if fam != "PYRA" else 0
        a = adj[i][:3]
        v = lambda q, k: tuple(pts[q[k]][t] - pts[q[i]][t] for t in range(3))
        ident = list(range(n))
        return det(*(v(ident, k) for k in a)) * det(*(v(p, k) for k in a))

    def rec(p):
        k = len(p)
        if k == n:
            if sign(p) > 0:
                out.append(tuple(p))
            return
        for c in range(n):
            if c in p:
                continue
            if all((frozenset((j, k)) in edges) == (frozenset((p[j], c)) in edges) for j in range(k)):
                rec(p + [c])
    rec([])
    if topo in EDGES_NAS:
        mid = {frozenset(e): i for i, e in EDGES_NAS[topo].items()}
        full = []
        for p in out:
            q = list(p)
            for i in range(n, n + len(mid)):
                a, b = EDGES_NAS[topo][i]
                q.append(mid[frozenset((p[a], p[b]))])
            full.append(tuple(q))
        out = full
    return out


def same(topo, expected, got):
    """expected and got: node lists in the Nastran order; equal up to a rotation of a solid element"""
    if len(expected) != len(got):
        return False
    return any([expected[i] for i in p] == list(got) for p in rotations(topo))


@lru_cache(None)
def from_med(topo):
    o = med_order(topo)
    if o is None:
        return None
    inv = [0] * len(o)
    for k, i in enumerate(o):
        inv[i] = k
    return inv


def nastran_list(topo, med_nodes):
    """MED listing -> Nastran listing"""
    inv = from_med(topo)
    return list(med_nodes) if inv is None else [med_nodes[k] for k in inv]
