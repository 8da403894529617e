"""C02: the order of the bulk data cards does not change the model."""
import random, sys
from vlib import content, deck as dk, deckcheck, engine, wide


class C02(deckcheck.DeckCheck):
    prop = "C02"
    rule = ("A case counts when the deck translates and the permutation moves at least five cards, at least one of them from before to after a card that refers to it or is referred to by it "
            "(every deck has elements before and after their grids in one of the two orders).")
    assumptions = ("Duplicate coordinate-system, grid or property identifiers do not occur (they are errors in Nastran).",
                   "A GRDSET card is kept in front: that it does not apply to earlier grids is a recorded finding of C03.")
    quick_n, thorough_n = 2200, 40000

    def gen(self, rng):
        target = rng.choice(["ASTER", "SYSTUS", "NASTRAN", "COSMIC"])
        sol = rng.choice([101, 101, 101, 103]) if target != "ASTER" else rng.choice([101, 101, 101, 103, 108, 111])
        c, b = wide.case(rng, target, sols=(sol,), p=rng.choice([.25, .4, .6]))
        n = len(c["deck"]["cards"])
        k = rng.random()
        order = list(range(n))
        if k < .5:
            rng.shuffle(order)
        elif k < .65:
            order.reverse()
        elif k < .8:
            order.sort(key=lambda i: c["deck"]["cards"][i][0])
        else:
            # a few long moves
            for _ in range(max(1, n // 8)):
                order.insert(rng.randrange(n), order.pop(rng.randrange(n)))
        c["order"] = order
        return c

    def judge(self, case):
        cards = case["deck"]["cards"]
        order = case["order"]
        if sorted(order) != list(range(len(cards))):
            raise engine.Skip("order")
        self.sem(case)
        tags = ["target:" + case["target"]] + sorted({"card:" + c[0] for c in cards})
        a = self.translate(case)
        if a.rc != 0:
            return engine.Outcome(["exit-code %s: on a well-formed deck: %s" % (a.rc, a.log[-600:])], tags)
        b = self.translate(case, text=dk.render(dict(case["deck"], cards=[cards[i] for i in order])))
        moved = sum(1 for k, i in enumerate(order) if k != i)
        if b.rc != 0:
            return engine.Outcome(["order-exit %s: refused in another card order: %s" % (b.rc, b.log[-600:])], tags, moved >= 5)
        ca, cb = content.content(case["target"], a), content.content(case["target"], b)
        return engine.Outcome(["order: " + d for d in content.diff(ca, cb)], tags, moved >= 5)

    def text(self, case):
        cards = case["deck"]["cards"]
        return "$ target %s\n%s\n$ second order:\n%s" % (case["target"], self.render(case), "\n".join(
            "\n".join(dk.small(cards[i])) for i in case["order"]))

    def shrinks(self, case):
        n = len(case["order"])
        for sub in engine.ddmin_list(list(range(n))):
            pos = {i: k for k, i in enumerate(sub)}
            yield dict(case, deck=dict(case["deck"], cards=[case["deck"]["cards"][i] for i in sub]), order=[pos[i] for i in case["order"] if i in pos])
        for i in range(n):
            o = [x for x in case["order"] if x != i]
            o.insert(i, i)
            if o != case["order"]:
                yield dict(case, order=o)
        for c in super().shrinks(case):
            if len(c["deck"]["cards"]) == n:
                yield c


if __name__ == "__main__":
    sys.exit(engine.run(C02()))
