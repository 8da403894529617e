"""C11: Nastran to Nastran keeps the model, and a second translation keeps the deck."""
import collections, re, sys
import numpy
from vlib import analysis, deck as dk, deckcheck, engine, wide
from vlib.sem import Invalid, Sem


def close(a, b, tol):
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-12
    return a == b


def same(x, y, tol):
    return len(x) == len(y) and all(close(a, b, tol) for a, b in zip(x, y))


def key(c):
    return tuple(v if not isinstance(v, float) else None for v in c)


class C11(deckcheck.DeckCheck):
    prop = "C11"
    rule = "A case counts when the first output holds at least ten cards and the second translation succeeds."
    quick_n, thorough_n = 4000, 80000
    targets = ("NASTRAN", "COSMIC")

    def gen(self, rng):
        t = rng.choice(self.targets)
        case, b = wide.case(rng, t, sols=(rng.choice([101, 101, 103]) if t == "NASTRAN" else 101,), p=rng.choice([.25, .4, .6]))
        return case

    def compare(self, case, s, o):
        tags = self.tags(case, s)
        text = o.find("_vg.nas").decode("latin-1")
        d1 = dk.parse_small(text)
        bad = self.identity(case, s, d1)
        if case["target"] == "COSMIC" and any(c[0] == "CTETRA" for c in d1["cards"]):
            # this dialect's CTETRA designates a material: it is not the card the reader knows
            return engine.Outcome(bad, tags + ["no second translation"], len(d1["cards"]) >= 10)
        p = self.translate(case, text=text)
        tags += sorted({"card:" + c[0] for c in d1["cards"]})
        if p.rc != 0:
            return engine.Outcome(["reread-exit %s: the written deck is refused: %s" % (p.rc, " ".join(re.findall(r"[^\n]*(?:rror|xception)[^\n]*", p.log))[:600] or p.log[-500:])], tags)
        d2 = dk.parse_small(p.find("_vg.nas").decode("latin-1"))
        return engine.Outcome(bad + self.diff(d1, d2), tags, len(d1["cards"]) >= 10)

    def identity(self, case, s, d1):
        """the objects of the deck are in the output under their own numbers"""
        try:
            t = Sem(d1)
            # the property of a tetrahedron is its material in the older dialect
            u = Sem(dict(d1, cards=[c for c in d1["cards"] if c[0] != "CTETRA"])) if case["target"] == "COSMIC" else t
            u.props()
            t.materials, t.properties = u.materials, u.properties
        except Invalid as e:
            return ["output-invalid: %s" % e]
        out = []
        ids = set(s.nodes) | set(s.spoints)
        if set(t.nodes) | set(t.spoints) != ids:
            out.append("grid-ids: lost %s, invented %s" % (sorted(ids - set(t.nodes)), sorted(set(t.nodes) - ids)))
        for i in s.nodes:
            if i in t.nodes and any(abs(float(x) - float(y)) > 2e-3 * max(1., abs(float(x))) for x, y in zip(s.nodes[i], t.nodes[i])):
                out.append("grid: %d at %s is written at %s" % (i, s.nodes[i], t.nodes[i]))
        for i, e in s.elems.items():
            g = t.elems.get(i)
            if g is None:
                if e.topo not in (None, "POINT1"):
                    out.append("element: %s %d is lost" % (e.card, i))
            elif set(g.nodes) != set(e.nodes):
                out.append("element: %s %d on %s is written on %s" % (e.card, i, e.nodes, g.nodes))
            elif e.card != "CONROD" and e.pid is not None and g.card != "CTETRA" and g.pid != e.pid:
                out.append("property: %s %d has property %s instead of %s" % (e.card, i, g.pid, e.pid))
        for m in {("material", f[2]) for p, f in s.properties.items() if f[0] in ("PSHELL", "PSOLID", "PBAR", "PBARL", "PBEAM", "PBEAML", "PROD") and any(e.pid == p for e in s.elems.values())}:
            if m[1] not in t.materials:
                out.append("material: %d is lost" % m[1])
        for p, f in s.properties.items():
            if p in t.properties and f[0] in ("PSHELL", "PBAR", "PBARL", "PBEAM", "PBEAML", "PROD", "PSOLID") and t.properties[p][2] != f[2]:
                out.append("property %d: material %s instead of %s" % (p, t.properties[p][2], f[2]))
        a, b = ([(c["id"] or 1, {n: v for n, v in c.items() if n in ("LOAD", "SPC", "MPC", "METHOD")}) for c in analysis.cases(d)] for d in (case["deck"], d1))
        if a != b:
            out.append("selection: %s became %s" % (a, b))
        return out

    @staticmethod
    def normal(d):
        """the cards with the order of their terms fixed, without the sets that no subcase selects; frames become {cid: (kind, origin, axes)}"""
        frames = {}
        cards = []
        use = {int(m.group(1)) for x in d["cc"] for m in [re.match(r"SPC ?= ?(\d+)", x)] if m}
        use |= {i for c in d["cards"] if c[0] == "SPCADD" and c[1] in use for i in c[2:]}
        for c in d["cards"]:
            n = c[0]
            if n.startswith("CORD2"):
                o, z, x = (numpy.array([float(v or 0) for v in c[k:k + 3]]) for k in (3, 6, 9))
                z = (z - o) / numpy.linalg.norm(z - o)
                x = x - o - z * z.dot(x - o)
                frames[c[1]] = (n, c[2]) + tuple(o) + tuple(z) + tuple(x / numpy.linalg.norm(x))
                continue
            if n in ("SPC", "SPC1") and c[1] not in use:
                continue
            if n == "SPCADD" and c[1] not in use:
                continue
            if n == "MPC":
                ts = []
                for k in range(2, len(c), 8):
                    ts += [tuple(c[j:j + 3]) for j in (k, k + 3) if j < len(c)]
                c = [n, c[1]] + [v for t in sorted(ts, key=lambda t: t[:2]) for v in t]
            if n in ("RBE2",):
                c = c[:4] + sorted(c[4:])
            if n == "RBE3":
                ts, w = [], None
                k = 5
                # weight, components, grids
                rest = list(c[5:])
                while rest:
                    w, comp = rest.pop(0), rest.pop(0)
                    while rest and isinstance(rest[0], int):
                        ts.append((rest.pop(0), w, comp))
                c = c[:5] + [v for t in sorted(ts) for v in t]
            cards.append(c)
        return cards, frames

    @classmethod
    def diff(cls, d1, d2):
        out = []
        a, b = collections.defaultdict(list), collections.defaultdict(list)
        frames = []
        for d, m in ((d1, a), (d2, b)):
            cs, f = cls.normal(d)
            frames.append(f)
            for c in cs:
                m[c[0]].append(c)
        if set(frames[0]) != set(frames[1]):
            out.append("frames: %s became %s" % (sorted(frames[0]), sorted(frames[1])))
        for i in sorted(set(frames[0]) & set(frames[1])):
            x, y = frames[0][i], frames[1][i]
            size = max(1., max(abs(v) for v in x[2:5]))
            if x[:2] != y[:2] or not all(abs(p - q) <= 2e-3 * (size if k < 3 else 1) for k, (p, q) in enumerate(zip(x[2:], y[2:]))):
                out.append("frame %d: %s became %s" % (i, x, y))
        for name in sorted(set(a) | set(b)):
            left = list(b[name])
            for c in a[name]:
                for x in left:
                    if same(c, x, 2e-4):
                        left.remove(x)
                        break
                else:
                    out.append("lost-%s: %s" % (name, c))
            out += ["new-%s: %s" % (name, x) for x in left]
        # the lines of SET statements list display groups: numbered in no given order
        norm = lambda cc: [re.sub(r"\s*\$.*", "", re.sub(r"\s+", " ", x)).strip() for x in cc if not re.match(r"(SET )?[\d ,=]+(\$.*)?$", x)]
        if norm(d1["cc"]) != norm(d2["cc"]):
            out.append("case-control: %s became %s" % (norm(d1["cc"]), norm(d2["cc"])))
        return out


if __name__ == "__main__":
    sys.exit(engine.run(C11()))
