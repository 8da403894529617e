"""Base of the checks whose cases are Nastran decks: {"deck":..., "target":..., ...}."""
import copy
from . import build as _build, deck as dk, engine, run as _run
from .sem import Invalid, Sem


class OutputInvalid(Exception):
    """the written deck is not a well-formed model"""


def read_nas(o):
    text = o.find("_vg.nas")
    if text is None:
        raise OutputInvalid("no Nastran file")
    d = dk.parse_small(text.decode("latin-1"))
    try:
        return Sem(d)
    except Invalid as e:
        raise OutputInvalid("written deck: %s" % e)


class DeckCheck(engine.Check):
    targets = ("ASTER", "SYSTUS", "NASTRAN", "COSMIC")
    mode = "-s"
    distinct = True         # grids at distinct positions (outputs are matched by position)
    binary = None

    def build(self):
        self.binary = _build.build("vegapp")

    def render(self, case):
        return dk.render(case["deck"])

    def translate(self, case, **k):
        text, mode = k.pop("text", None) or self.render(case), k.pop("mode", self.mode)
        target, opts = case["target"], tuple(k.pop("opts", ())) + tuple(case.get("opts", ()))
        if target == "NASTRAN":
            opts += ("--nastran.OutputDialect=modern",)
        if target == "COSMIC":
            target = "NASTRAN"
        o = _run.translate(self.binary, text, target, mode=mode, opts=opts, **k)
        if o.timeout:
            # a slow machine is not a defect: once more with a long limit
            k["timeout"] = 120
            o = _run.translate(self.binary, text, target, mode=mode, opts=opts, **k)
        return o

    def sem(self, case):
        """raises Invalid (a Skip) when the deck is not well formed"""
        s = Sem(case["deck"])
        s.props()
        if self.distinct and len({tuple(round(float(x), 6) for x in p) for p in s.nodes.values()}) != len(s.nodes):
            raise Invalid("coincident grids")
        return s

    def judge(self, case):
        s = self.sem(case)
        o = self.translate(case)
        if o.rc != 0:
            return engine.Outcome(["exit-code %s: on a well-formed deck: %s" % (o.rc, o.log[-600:])], self.tags(case, s))
        return self.compare(case, s, o)

    def tags(self, case, s):
        return ["target:" + case["target"]]

    def compare(self, case, s, o):
        raise NotImplementedError

    def text(self, case):
        return "$ target %s%s\n%s" % (case["target"], "".join(" %s=%r" % (k, v) for k, v in sorted(case.items()) if k not in ("deck", "target")),
                                      self.render(case))

    def shrinks(self, case):
        d = case["deck"]
        for sub in engine.ddmin_list(d["cards"]):
            yield dict(case, deck=dict(d, cards=sub))
        if len(d["cc"]) > 1:
            for sub in engine.ddmin_list(d["cc"]):
                yield dict(case, deck=dict(d, cc=sub))
        # cards that nothing refers to, in pairs, are covered by ddmin; now single fields
        for i, c in enumerate(d["cards"]):
            if len(c) > 3:
                for cut in (1, 2, 4, 8):
                    if len(c) - cut >= 2:
                        yield dict(case, deck=dict(d, cards=d["cards"][:i] + [c[:-cut]] + d["cards"][i + 1:]))
            for k in range(2, len(c)):
                if c[k] is not None:
                    yield self.with_field(case, i, k, None)
                if isinstance(c[k], float):
                    for v in (0., 1., float(round(c[k]))):
                        if v != c[k] and abs(v) <= abs(c[k]) + 1:
                            yield self.with_field(case, i, k, v)

    @staticmethod
    def with_field(case, i, k, v):
        d = case["deck"]
        cards = list(d["cards"])
        cards[i] = cards[i][:k] + [v] + cards[i][k + 1:]
        return dict(case, deck=dict(d, cards=cards))
