"""C15: every output is self-consistent and loadable."""
import sys
from vlib import cases, deckcheck, engine, selfcons, wide

SYS_OPTS = ([], [], ["--systus.RBE2TranslationMode=lagrangian"], ["--systus.RBE2TranslationMode=penalty"], ["--systus.Subcase=single"], ["--systus.OptionAnalysis=3D"],
            ["--systus.OptionAnalysis=shell"], ["--systus.DynamicMethod=direct"], ["--systus.OutputProduct=topaze"], ["--solver-version=2018"])


class C15(deckcheck.DeckCheck):
    prop = "C15"
    rule = ("A case counts when the deck translates and the output names at least ten objects by reference (cells and nodes of groups, members of lists, sets, materials or properties of elements, "
            "concepts used by commands): every written deck with elements, supports and loads does.")
    quick_n, thorough_n = 4000, 80000

    def gen(self, rng):
        t = rng.choice(self.targets)
        if rng.random() < .35:
            b = cases.WC(rng, t, cases.SOLS[t]).build()
            case = {"deck": b.deck(), "target": t}
        else:
            sol = rng.choice([101, 101, 103]) if t not in ("ASTER", "SYSTUS") else rng.choice([101, 101, 103, 108, 111] if t == "ASTER" else [101, 101, 103, 111])
            case, b = wide.case(rng, t, sols=(sol,), p=rng.choice([.25, .4, .6, .8]))
        if rng.random() < .5:
            self.litter(rng, case, b)
        o = case["opts"] = []
        if t == "SYSTUS":
            o += rng.choice(SYS_OPTS)
            if getattr(b, "bands", False) and "--solver-version=2018" not in o:
                o.append("--solver-version=2018")
        if rng.random() < .15:
            o.append("--convertCompletelyRigidsIntoMPCs=true")
        return case

    @staticmethod
    def litter(rng, case, b):
        """objects that nothing uses"""
        cards = case["deck"]["cards"]
        grids = sorted(c[1] for c in cards if c[0] == "GRID")
        mats = sorted(c[1] for c in cards if c[0] == "MAT1")
        top = 900000
        for k in rng.sample(range(11), rng.randint(1, 6)):
            if k == 1 and case["target"] == "SYSTUS":
                continue        # the Systus writer refuses, loudly, materials that nothing uses
            i = top + k
            g = rng.choice(grids)
            new = {0: [["PSHELL", i, mats[0], .125]] if mats else [],
                   1: [["MAT1", i, 1e9, None, .25]],
                   2: [["SPC1", i, 123, g]],
                   3: [["FORCE", i, g, None, 10., 1., 0., 0.]],
                   4: [["TABLED1", i, None, None, None, None, None, None, None, 0., 1., 2., 3., "ENDT"]],
                   5: [["GRID", i, None, 1000. + k, 2000., 3000.]],
                   6: [["CORD2R", i, None, 0., 0., 0., 0., 0., 1., 1., 0., 0.]],
                   7: [["MPC", i, g, 1, 1., g, 2, -1.]],
                   8: [["SPCADD", i, i + 500], ["SPC", i + 500, g, 1, 0.]],
                   9: [["LOAD", i, 1., 2., i + 500], ["FORCE", i + 500, g, None, 1., 0., 1., 0.]],
                   10: [["EIGRL", i, None, None, 3]]}[k]
            for c in new:
                cards.insert(rng.randrange(len(cards) + 1), c)

    def judge(self, case):
        s = self.sem(case)
        # no card may refer to a grid that is not there (shrinking removes cards)
        d = case["deck"]
        used = {x for c in d["cards"] if c[0] not in ("GRID", "SPOINT") for x in c[1:] if isinstance(x, int)}
        if any(g in used and g not in s.nodes and g not in s.spoints for g in case.setdefault("grids", sorted(c[1] for c in d["cards"] if c[0] == "GRID"))):
            raise engine.Skip("a grid is missing")
        tags = ["target:" + case["target"]] + ["opt:" + x for x in case.get("opts", ())] + sorted({"card:" + c[0] for c in case["deck"]["cards"]})
        o = self.translate(case)
        if o.rc != 0:
            return engine.Outcome(["exit-code %s: on a well-formed deck: %s" % (o.rc, o.log[-600:])], tags)
        bad = selfcons.check(case["target"], o, case.get("opts", ()))
        kinds, out = {}, []
        for x in bad:
            k = x.split(":")[0]
            kinds[k] = kinds.get(k, 0) + 1
            if kinds[k] <= 3:
                out.append(x)
        return engine.Outcome(out, tags, len(s.elems) > 0)


if __name__ == "__main__":
    sys.exit(engine.run(C15()))
