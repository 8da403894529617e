"""C13: translation modes differ only in how errors are treated."""
import re, sys
import numpy
from vlib import canon, cases, content, deck as dk, deckcheck, engine, med, wide
from vlib.systus import Asc

JUNK = ("GGG", "1.2.3", "x", "*", "--1", "1,2"[:1] + "A", "0x1F", "1e", "NaN?", "!")
WORDS = ("THRU", "EXCEPT", "BY", "ENDT", "UM", "CORD2R", "END")


numpy.seterr(invalid="ignore", over="ignore")


class C13(deckcheck.DeckCheck):
    prop = "C13"
    rule = ("A case counts when the deck of a 'good' case translates in strict mode, or when strict mode refuses the broken deck and best effort accepts the deck without the broken card.")
    assumptions = ("A broken card is one with an unknown name, a number that cannot be read, or missing mandatory fields; a card whose only fault is fields after its last one may be kept or dropped.",)
    quick_n, thorough_n = 3000, 60000

    def gen(self, rng):
        t = rng.choice(self.targets)
        if rng.random() < .3:
            b = cases.WC(rng, t, cases.SOLS[t]).build()
            case = {"deck": b.deck(), "target": t}
            if t == "SYSTUS" and getattr(b, "bands", False):
                case["opts"] = ["--solver-version=2018"]
        else:
            sol = rng.choice([101, 101, 103]) if t not in ("ASTER", "SYSTUS") else rng.choice([101, 101, 103, 108, 111] if t == "ASTER" else [101, 101, 103, 111])
            case, b = wide.case(rng, t, sols=(sol,), p=rng.choice([.25, .4, .6]))
        cards = case["deck"]["cards"]
        r = rng.random()
        if r < .15:
            case["how"] = "good"
            return case
        case["i"] = i = rng.randrange(len(cards))
        if rng.random() < .6:
            # every kind of card, not only the frequent ones
            name = rng.choice(sorted({c[0] for c in cards}))
            case["i"] = i = rng.choice([k for k, c in enumerate(cards) if c[0] == name])
        c = cards[i]
        if r < .3:
            case["how"] = "unknown"
            case["new"] = rng.choice([["XCARD", 1, 2., "ABC"], ["FOO"], ["QUUX"] + list(range(1, 20)), ["GRIDX", 1, None, 0., 0., 0.], ["CHEXB", 1, 1, 1, 2, 3, 4, 5, 6, 7, 8],
                                      ["TEMPX"] + [1.5] * 9, ["SPCX", 1, 2, 3]])
        elif r < .8:
            # a number, or a blank, becomes unreadable
            ks = [k for k in range(1, len(c)) if isinstance(c[k], (int, float))]
            if not ks:
                case["how"] = "good"
                return case
            case["how"] = "junk"
            case["field"] = rng.choice(ks)
            case["new"] = rng.choice(JUNK)
        else:
            case["how"] = "cut"
            case["field"] = rng.randint(1, min(len(c), 6))
        return case

    @staticmethod
    def decks(case):
        """(deck as given, deck without the broken card, name of the broken card, index of its first line among bulk lines, number of its lines)"""
        d = case["deck"]
        cards = [list(c) for c in d["cards"]]
        i, how = case.get("i"), case["how"]
        if how == "good":
            return d, None, None, None
        if how == "unknown":
            bad = cards[:i] + [list(case["new"])] + cards[i:]
            return dict(d, cards=bad), d, case["new"][0], i
        c = cards[i]
        if how == "junk":
            if case["field"] >= len(c):
                raise engine.Skip("field")
            c = c[:case["field"]] + [case["new"]] + c[case["field"] + 1:]
        else:
            c = c[:case["field"]]
        return dict(d, cards=cards[:i] + [c] + cards[i + 1:]), dict(d, cards=cards[:i] + cards[i + 1:]), c[0], i

    def run(self, case, deck, mode):
        return self.translate(case, text=dk.render(deck), mode=mode)

    def items(self, case, o):
        c = content.content(case["target"], o)
        for k in list(c):
            if k.startswith(("unused ",)):
                del c[k]
        return c

    def beginning(self, case, bad, i, cb):
        """the readable beginning of the card that best effort kept: fields before this number, 0 when none"""
        if case["how"] == "unknown":
            return 0
        c, f = bad["cards"][i], case["field"]
        for k in range(f if case["how"] == "junk" else f - 1, 1, -1):
            for tail in ([], ["ENDT"]) if c[0].startswith("TAB") else ([],):
                cut = dict(bad, cards=bad["cards"][:i] + [c[:k] + tail] + bad["cards"][i + 1:])
                if self.run(case, cut, "-s").rc == 6:
                    continue      # not a card
                o = self.run(case, cut, "-b")
                if o.rc != 0:
                    continue
                try:
                    if not content.diff(self.items(case, o), cb):
                        return k
                except Exception:
                    continue
        return 0

    @staticmethod
    def written(target, o):
        """(positions of the written nodes, sets of nodes of the written cells)"""
        if target == "ASTER":
            m = med.loads(o.find(".med"))
            return [list(c) for c in m.coords], {frozenset(ns) for t, ns in m.cells.values()}
        if target == "SYSTUS":
            pos, cells = {}, set()
            for f in sorted(o.files):
                if f.endswith("_DATA1.ASC"):
                    a = Asc(o.files[f].decode("latin-1"))
                    pos = {i: n[4] for i, n in a.nodes.items()}
                    cells |= {frozenset(e[7]) for e in a.elems}
            ids = sorted(pos)
            num = {x: k for k, x in enumerate(ids)}
            return [pos[x] for x in ids], {frozenset(num[x] for x in c if x in num) for c in cells}
        s = deckcheck.read_nas(o)
        ids = sorted(s.nodes)
        num = {x: k for k, x in enumerate(ids)}
        return [list(s.nodes[x]) for x in ids], {frozenset(num[x] for x in e.nodes) for e in s.elems.values()}

    def mesh(self, case, name, card, o):
        """the mesh of mesh-at-least: every grid but a broken one, every element that neither is broken nor uses a broken grid, property or material"""
        try:
            s = self.sem(case)
        except engine.Skip:
            return []
        try:
            pos, cells = self.written(case["target"], o)
        except deckcheck.OutputInvalid as e:
            # an element on the broken grid is written without a position for it
            return [] if name == "GRID" else ["mesh-output: unreadable after a broken %s: %r" % (name, e)]
        except Exception as e:
            return ["mesh-output: unreadable after a broken %s: %r" % (name, e)]
        lost = {card[1]} if card is not None and name == "GRID" else set()
        if name == "GRDSET":
            return []
        pos = numpy.array([p if all(abs(x) < 1e30 for x in p) else [1e30] * 3 for p in pos], float).reshape(-1, 3)
        at, out = {}, []
        for g, p in s.nodes.items():
            if g in lost:
                continue
            d = numpy.abs(pos - numpy.array([float(x) for x in p])).max(axis=1) if len(pos) else numpy.array([9e9])
            k = int(d.argmin())
            if d[k] > 1e-3 * max(1., float(numpy.abs(numpy.array([float(x) for x in p])).max())):
                out.append("mesh-nodes: grid %d is not in the mesh after a broken %s" % (g, name))
                break
            at[g] = k
        else:
            for e in s.elems.values():
                if e.topo in (None, "POINT1") or len(e.nodes) < 2 or any(g not in at for g in e.nodes):
                    continue
                if card is not None and name == e.card and card[1] == e.eid:
                    continue
                if case["target"] != "ASTER" and card is not None and name[0] in "PM":
                    continue    # these write elements with their property
                if frozenset(at[g] for g in e.nodes) not in cells:
                    out.append("mesh-cells: element %s %d is not in the mesh after a broken %s" % (e.card, e.eid, name))
                    break
        return out

    def judge(self, case):
        how, target = case["how"], case["target"]
        bad, ref, name, i = self.decks(case)
        tags = ["target:" + target, "how:" + how]
        if how == "good":
            self.sem(case)
            s = self.run(case, bad, "-s")
            if s.rc != 0:
                return engine.Outcome(["exit-code %s: on a well-formed deck: %s" % (s.rc, s.log[-600:])], tags)
            ca, out = canon.canon(s.files), []
            for m in ("-b", "-m", ""):
                o = self.run(case, bad, m)
                if o.rc != 0:
                    out.append("mode%s-exit %s: on a deck strict mode accepts: %s" % (m, o.rc, o.log[-400:]))
                    continue
                out += ["mode%s: differs from strict mode: %s" % (m, x) for x in canon.diff(ca, canon.canon(o.files))]
            return engine.Outcome(out, tags, True)
        tags.append("card:" + name)
        s = self.run(case, bad, "-s")
        text = dk.render(bad).split("\n")
        first = text.index("BEGIN BULK") + 2 + sum(len(dk.small(c)) for c in bad["cards"][:i])    # line numbers from 1
        last = first + len(dk.small(bad["cards"][i])) - 1
        out = []
        if s.rc == 0:
            return engine.Outcome([], tags + ["accepted:%s.%s" % (name, case.get("field"))], False)
        m = re.findall(r"Parsing error in (\S+) \(file \S*? ?line (\d+)\)", s.log)
        if s.rc != 6:
            # another object of the model may be refused first only if nothing in the card was unreadable: the same deck in best effort says so
            b = self.run(case, bad, "-b")
            if "Parsing error in" in b.log:
                out.append("strict-exit %s: not the exit code of parsing errors: %s" % (s.rc, s.log[-300:]))
            return engine.Outcome(out, tags + ["refused-otherwise:%s.%s" % (name, case.get("field"))], False)
        if not any(n == name and first <= int(ln) <= last + 1 for n, ln in m):
            out.append("strict-message: does not name %s at line %d-%d: %s" % (name, first, last, s.log[-300:]))
        r = self.run(case, ref, "-b")
        b = self.run(case, bad, "-b")
        if "Parsing error in" not in b.log:
            out.append("best-effort-message: nothing says that a card was dropped: %s" % b.log[-300:])
        if r.rc != b.rc and not (b.rc == 0 and self.beginning(case, bad, i, self.items(case, b))):
            out.append("best-effort-exit %s: instead of %s without the broken %s: %s" % (b.rc, r.rc, name, b.log[-500:]))
        elif r.rc == 0 and b.rc == 0:
            try:
                cr = self.items(case, r)
            except Exception as e:
                cr = None
                tags.append("reference unreadable")
            if cr is not None:
                try:
                    cb = self.items(case, b)
                    d = content.diff(cr, cb)
                except Exception as e:
                    cb, d = None, ["output unreadable %r" % e]
                if d and cb is not None:
                    k = self.beginning(case, bad, i, cb)
                    if k:
                        d = []
                        tags.append("kept %s up to field %d" % (name, k - 1))
                out += ["best-effort: not the model without the broken %s: %s" % (name, x) for x in d]
        m = self.run(case, bad, "-m")
        if m.rc != 0:
            out.append("mesh-exit %s: no mesh because of a broken %s: %s" % (m.rc, name, m.log[-400:]))
        elif not name.startswith("CORD"):
            out += self.mesh(case, name, None if how == "unknown" else case["deck"]["cards"][i], m)
        tags.append("ref rc:%s" % r.rc)
        return engine.Outcome(out, tags, r.rc == 0)

    def text(self, case):
        bad, ref, name, i = self.decks(case)
        return "$ target %s %s\n%s" % (case["target"], {k: v for k, v in case.items() if k not in ("deck", "target")}, dk.render(bad))

    def shrinks(self, case):
        d = case["deck"]
        n = len(d["cards"])
        i = case.get("i")
        for sub in engine.ddmin_list(list(range(n))):
            if i is None:
                yield dict(case, deck=dict(d, cards=[d["cards"][k] for k in sub]))
            elif case["how"] == "unknown":
                yield dict(case, deck=dict(d, cards=[d["cards"][k] for k in sub]), i=sum(1 for k in sub if k < i))
            elif i in sub:
                yield dict(case, deck=dict(d, cards=[d["cards"][k] for k in sub]), i=sub.index(i))


if __name__ == "__main__":
    sys.exit(engine.run(C13()))
