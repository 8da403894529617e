"""Comparison of the prescribed kinematics (supports and linear relations) and of the loads of every analysis."""
import re
from . import analysis, deckcheck, engine, outputs
from .aster import AsterError
from .comm import CommError
from .deckcheck import OutputInvalid
from .sem import Invalid, Sem
from .systus import AscError

TOL = {"ASTER": 1e-6, "SYSTUS": 1e-5, "NASTRAN": 2e-3, "COSMIC": 2e-3}


class Kinematics(deckcheck.DeckCheck):
    what = ("kinematics",)

    def compare(self, case, s, o):
        t = case["target"]
        ref = analysis.Ref(s)
        cs = analysis.cases(case["deck"])
        self.deck_tags = set()
        R = []
        for c in cs:
            enf = ref.enforced(c)
            R.append((c, ref.supports(c, enf) if "kinematics" in self.what else None, ref.equations(c) if "kinematics" in self.what else None,
                      ref.loads(c.get("LOAD")) if "loads" in self.what else None))
        rig = ref.rigids() if "kinematics" in self.what else []
        tags = self.tags(case, s) + ["cases:%d" % len(cs)] + sorted(self.feature_tags(case))
        live = ref.live()
        try:
            fails = self.compare_out(t, case, s, o, ref, R, rig, live)
        except (OutputInvalid, outputs.Mismatch, AsterError, CommError, AscError) as e:
            fails = ["output: %s" % e]
        except Invalid as e:
            fails = ["output: written deck: %s" % e]
        return engine.Outcome(fails[:8], tags, self.nontrivial(case, s, R, rig))

    def feature_tags(self, case):
        return {"card:" + c[0] for c in case["deck"]["cards"]}

    def nontrivial(self, case, s, R, rig):
        return any(len(r[1]) > 1 for r in R)

    def compare_out(self, t, case, s, o, ref, R, rig, live):
        fails = []
        tol = TOL[t]
        if t == "ASTER":
            a = outputs.AsterOut(o, s)
            if len(a.cases) != len(R):
                return ["cases: %d analyses in the deck, %d in the output" % (len(R), len(a.cases))]
            for (c, sup, eqs, L), q in zip(R, a.cases):
                w = "case %s" % c["id"]
                fails += self.one(w, t, sup, eqs, rig, a.relations(q["charges"]) if sup is not None else None, live, L, a.loads(q["charges"]) if L is not None else None, tol)
        elif t == "SYSTUS":
            a = outputs.SystusOut(o, s)
            fails += self.systus(a, s, R, ref, live, tol)
        else:
            s2 = deckcheck.read_nas(o)
            ref2 = analysis.Ref(s2)
            out = analysis.cases(s2.deck)
            if len(out) != len(R):
                return ["cases: %d analyses in the deck, %d in the output" % (len(R), len(out))]
            rig2 = ref2.rigids()
            for (c, sup, eqs, L), q in zip(R, out):
                w = "case %s" % c["id"]
                fails += self.one(w, t, sup, eqs, rig, ref2.supports(q, ref2.enforced(q)) + ref2.equations(q) + rig2 if sup is not None else None, live, L,
                                  ref2.loads(q.get("LOAD")) if L is not None else None, tol)
        return fails

    def one(self, w, t, sup, eqs, rig, rows, live, L, out, tol):
        f = []
        if sup is not None:
            f += ["%s (%s)" % (x, w) for x in analysis.compare_spaces(sup + eqs + rig, rows, live, tol)]
        if L is not None:
            f += ["%s (%s)" % (x, w) for x in outputs.compare_loads(L, out, tol)]
        return f

    def systus(self, a, s, R, ref, live, tol):
        fails = []
        if len(a.cases) != len(R):
            return ["cases: %d analyses in the deck, %d in the output" % (len(R), len(a.cases))]
        for (c, sup, eqs, L), q in zip(R, self.systus_order(a, R)):
            w = "case %s" % c["id"]
            asc = q["asc"]
            rig = ref.rigids(asc.nbdofs) if sup is not None else []
            lv = {(n, d) for n, d in live if d < asc.nbdofs}
            rows = a.supports(q) + a.equations(q) if sup is not None else None
            if sup is not None:
                if asc.nbdofs == 3:     # the solid option has no rotations, but for those of the reference nodes of rigid elements
                    sup = [r for r in sup if any(d < 3 or n in ref.masters() for n, d in r[0])]
                f = analysis.compare_spaces(sup + eqs + rig, rows, lv, tol)
                fails += ["%s (%s)" % (x, w) for x in f]
            if L is not None:
                if asc.nbdofs == 3:
                    for v in L.nodal.values():
                        v[3:] = 0.
                fails += ["%s (%s)" % (x, w) for x in outputs.compare_loads(L, a.loads(q), tol)]
        return fails

    def systus_order(self, a, R):
        """the output's analyses in the order of the deck's: they are found by their label"""
        norm = lambda x: re.sub(r"[^A-Z0-9]", "_", (x or "").upper())
        by = {norm(q["label"]): q for q in a.cases}
        out = []
        for k, (c, *_) in enumerate(R):
            for lab in (c.get("LABEL"), "Analysis_%s" % c["id"], "Analysis_%d" % (k + 1)):
                if norm(lab) in by:
                    out.append(by.pop(norm(lab)))
                    break
            else:
                if len(by) == 1:
                    out.append(by.popitem()[1])
                else:
                    raise outputs.Mismatch("no analysis labelled %s among %s" % (c.get("LABEL") or c["id"], sorted(by)))
        return out
