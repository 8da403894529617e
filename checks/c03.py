"""C03: every grid point lands at its true position in every output."""
import sys
import numpy as np
from vlib import comm, deck as dk, engine, gen, med, systus
from vlib.deckcheck import DeckCheck, read_nas
from vlib.sem import Sem


def close(a, b, rel, ab=1e-9):
    return all(abs(x - y) <= ab + rel * max(abs(x), abs(y), 1.0) for x, y in zip(a, b))


class C03(DeckCheck):
    prop = "C03"
    rule = ("Decks with 1-25 grids in up to 6 rectangular, cylindrical, spherical and grid-defined coordinate systems nested up to 6 deep, "
            "optional defaults for position and displacement systems, scalar points, random identifiers (dense or up to 7 digits) and a random "
            "order of the whole bulk data section, sent to Code_Aster, Systus or Nastran. Non-trivial: at least one grid is positioned in a "
            "non-basic system.")
    assumptions = ["coordinates compared to 1e-9 relative (Nastran output: 1e-3 of the model size per nesting level, its 8-character fields hold 4 to 5 digits)",
                   "the MED file is read with the installed libmed"]
    distinct = False
    quick_n, thorough_n = 5000, 100000

    def gen(self, rng):
        r = rng
        b = gen.B(r)
        target = r.choice(self.targets)
        csys, refs, plain = [0], [0], [0]
        for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
            if r.random() < .2:
                # grid-defined system; its grids may themselves be in another system
                for _try in range(20):
                    ids = []
                    m = len(b.cards)
                    for _k in range(3):
                        ids.append(self.grid(b, r, r.choice(plain)))
                    cid = b.id("cs")
                    b.add("CORD1R", cid, *ids)
                    try:
                        Sem(b.deck())
                    except engine.Skip:
                        del b.cards[m:]
                        for i in ids:
                            b.nodes.remove(i)
                        continue
                    b.cs[cid] = "R"
                    csys.append(cid)
                    refs.append(cid)
                    break
            else:
                rid = r.choice(refs)
                cid = b.cord2(rid)
                csys.append(cid)
                if rid in plain:
                    plain.append(cid)
                if b.cs[cid] == "R":
                    refs.append(cid)
        cds = [c for c in csys if b.cs[c] != "S"] if target not in ("NASTRAN", "COSMIC") else [0]
        gs = None
        if r.random() < .3:
            gs = b.add("GRDSET", None, r.choice(plain + [None]), None, None, None, r.choice([0, None] + cds))
        for _ in range(r.randint(1, 12)):
            for _try in range(20):
                m = len(b.cards)
                i = self.grid(b, r, r.choice(csys), r.choice([None, None, 0] + cds), gs)
                try:
                    Sem(b.deck())
                    break
                except engine.Skip:
                    del b.cards[m:]
                    b.nodes.remove(i)
        if gs is not None:
            try:
                Sem(b.deck())
            except engine.Skip:
                b.cards.remove(gs)
        if r.random() < .15 and target == "ASTER":
            b.add("SPOINT", b.id("grid"))
        # a few elements so that the mesh is an ordinary one
        if len(b.nodes) >= 2:
            for _ in range(r.randint(0, 3)):
                b.rod()
        r.shuffle(b.cards)
        if gs in b.cards:
            b.cards.remove(gs)
            b.cards.insert(0, gs)
        return {"deck": b.deck(), "target": target}

    def grid(self, b, r, cp, cd=None, gs=None):
        i = b.id("grid")
        k = b.cs[cp]
        q = lambda lo, hi: r.randint(lo * 4, hi * 4) / 4.0
        if k == "R":
            p = [q(-20, 20), q(-20, 20), q(-20, 20)]
        elif k == "C":
            p = [q(0, 20) or .25, float(r.choice([0, 15, 30, 90, 180, 270, -45, 359, 400, 12.5])), q(-20, 20)]
        else:
            p = [q(0, 20) or .25, float(r.choice([10, 30, 45, 90, 135, 170, 62.5])), float(r.choice([0, 15, 90, 180, 270, -45, 359, 12.5]))]
        if r.random() < .15:
            p[r.randrange(3)] = None
        b.add("GRID", i, cp if cp or (gs and gs[2]) or r.random() < .3 else None, *p, cd)
        b.nodes.append(i)
        return i

    def compare(self, case, s, o):
        fails = []
        t = case["target"]
        exp = {i: tuple(float(x) for x in p) for i, p in s.nodes.items()}
        if t == "ASTER":
            m = med.loads(o.find(".med"))
            got = list(m.coords)
            want = list(exp.values()) + [(0., 0., 0.)] * 0
            if len(got) != len(exp) + len(s.spoints):
                fails.append("node-count: %d nodes in the mesh, %d in the deck" % (len(got), len(exp) + len(s.spoints)))
            free = list(range(len(got)))
            for i, p in sorted(exp.items()):
                j = next((j for j in free if close(got[j], p, 1e-9)), None)
                if j is None:
                    fails.append("node-position: grid %d at %s is not in the mesh %s" % (i, p, [got[j] for j in free][:6]))
                else:
                    free.remove(j)
        elif t == "SYSTUS":
            for name in sorted(o.files):
                if name.endswith(".ASC"):
                    a = systus.Asc(o.files[name].decode("latin-1"))
                    if set(a.nodes) != set(exp) | s.spoints:
                        fails.append("node-set: %s" % sorted(set(a.nodes) ^ (set(exp) | s.spoints))[:10])
                    for i, p in sorted(exp.items()):
                        if i in a.nodes and not close(a.nodes[i][4], p, 1e-9):
                            fails.append("node-position: grid %d at %s, written at %s" % (i, p, a.nodes[i][4]))
        else:
            s2 = read_nas(o)
            scale = max([1.] + [abs(x) for p in exp.values() for x in p] + [abs(x) for c in s.cs.values() for x in c.o])
            tol = 1e-3 * scale * (2 + len(s.cscard))
            if set(s2.nodes) != set(exp):
                fails.append("node-set: %s" % sorted(set(s2.nodes) ^ set(exp))[:10])
            for i, p in sorted(exp.items()):
                if i in s2.nodes and max(abs(x - y) for x, y in zip(s2.nodes[i], p)) > tol:
                    fails.append("node-position: grid %d at %s, written at %s" % (i, p, tuple(s2.nodes[i])))
        used = [s.gridcard[i] for i in exp]
        nt = any((c[2] if len(c) > 2 and c[2] is not None else s.cp0) for c in used)
        tags = self.tags(case, s) + ["cs:%d" % min(4, len(s.cscard))] + (["grdset"] if "GRDSET" in s.by else []) + \
            (["cord1r"] if "CORD1R" in s.by else []) + (["spoint"] if s.spoints else []) + ["kind:" + c[0] for c in s.cscard.values()]
        return engine.Outcome(fails, tags, nt)


if __name__ == "__main__":
    sys.exit(engine.run(C03()))
