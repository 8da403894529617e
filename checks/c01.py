"""C01: a card means the same in every layout and number spelling."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, sys
from vlib import canon, deck as dk, deckcheck, engine, wide
from vlib.sem import Invalid

LISTS = {"SPC1": 3, "SET3": 3, "PLOAD2": 3}     # cards that end in an integer list, and where it starts


def spell(x, width, r):
    """a random Nastran notation of the real x that fits the field"""
    if x == 0:
        return r.choice([s for s in ("0.", "0.0", ".0", "+0.", "0.E0", "0.+0", "0.D0", "0.0E+00", "+.0") if len(s) <= width])
    sgn, a = ("-" if x < 0 else ""), abs(x)
    cands = set()
    for p in range(0, 17):
        m, e = ("%.*E" % (p, a)).split("E")
        if float("%sE%s" % (m, e)) != a:
            continue
        digits, e = m.replace(".", ""), int(e)
        for shift in range(0, min(len(digits), 4) + 1):
            # digits[:shift] . digits[shift:] x 10^(e+1-shift)
            man = digits[:shift] + "." + digits[shift:]
            ex = e + 1 - shift
            for mm in {man, man + "0", ("0" + man) if man[0] == "." else man}:
                if ex == 0:
                    cands.add(mm)
                for f in ("E%d", "E%+d", "%+d", "D%d", "D%+d", "e%d", "d%+d", "E%+03d", "%+03d"):
                    cands.add(mm + f % ex)
        break
    f = repr(a)
    if "e" not in f and "E" not in f:
        cands |= {f, f + "0"}
        if f.endswith(".0"):
            cands.add(f[:-1])
        if f.startswith("0."):
            cands.add(f[1:])
    out = []
    for c in sorted(cands):
        if c == "." or c[0] in "ED+-":
            continue
        for s in ({sgn + c, "+" + c} if not sgn else {sgn + c}):
            if len(s) <= width and dk.parse_real(s) == x:
                out.append(s)
    return r.choice(out) if out else dk.real(x, width)


def compress(name, fields, thru):
    """integer lists with THRU (and BY for sets)"""
    k = LISTS.get(name)
    if k is None or len(fields) < k + 1:
        return fields
    head, ids = fields[:k - 1], fields[k - 1:]
    if not all(isinstance(v, int) for v in ids):
        return fields
    out, i = [], 0
    while i < len(ids):
        j = i + 1
        step = ids[j] - ids[i] if j < len(ids) else 0
        if step == 1 or (step > 1 and name == "SET3" and thru == 2):
            while j + 1 < len(ids) and ids[j + 1] - ids[j] == step:
                j += 1
            if j - i >= 2:
                out += [ids[i], "THRU", ids[j]] + (["BY", step] if step > 1 else [])
                i = j + 1
                continue
        out.append(ids[i])
        i += 1
    return head + out


def lay_card(card, lay, wide_base=False):
    """lines of one card in the layout"""
    r = random.Random(lay.get("seed", 0))
    name = card[0]
    fields = dk.strip_tail(card[1:])
    if lay.get("thru"):
        fields = compress(name, fields, lay["thru"])
    style = lay.get("style", "large" if wide_base else "small")
    w = 8 if style == "small" else 16
    chunkw = sorted(r.choice([8, 16]) for _ in range(-(-len(fields) // 8) + 1)) if style == "mix" else []
    low = lay.get("case")

    def word(s):
        if low == "lower":
            return s.lower()
        if low == "mixed":
            return "".join(c.lower() if r.random() < .5 else c for c in s)
        return s

    def text(v):
        if isinstance(v, float) and lay.get("num"):
            return spell(v, w, r)
        if isinstance(v, str):
            return word(v)
        return dk.field(v, w)

    def place(s, width):
        a = lay.get("align")
        if a == "right":
            return s.rjust(width)
        if a == "mixed":
            return r.choice([s.rjust(width), s.center(width), s.ljust(width)])
        return s.ljust(width)
    toks = []
    for i, v in enumerate(fields):
        if chunkw:
            w = chunkw[i // 8]
        toks.append(text(v))
    lines = []
    cont = lay.get("cont", "+")
    if style == "free":
        for i in range(0, max(1, len(toks)), 8):
            part = toks[i:i + 8]
            last = i + 8 >= len(toks)
            if lay.get("pad"):
                part = [" " * r.randint(0, 2) + p + " " * r.randint(0, 2) for p in part]
            if not last:
                part += [""] * (8 - len(part))
                if cont != "auto":
                    part.append("+" if cont == "+" else "+Q%d" % (i // 8))
            head = word(name) if i == 0 else ("+" if cont in ("+", "auto") else "+Q%d" % (i // 8 - 1))
            if i and cont == "auto" and r.random() < .5:
                head = ""
            lines.append(",".join([head] + part))
    else:
        # chunks of eight fields, in one line of 8-character fields or two of 16-character ones
        tab = lay.get("tabs")
        plan = []
        for i in range(0, max(1, len(toks)), 8):
            large = style == "large" or (style == "mix" and chunkw[i // 8] == 16)
            part = toks[i:i + 8]
            if large:
                plan += [(16, part[:4], i == 0), (16, part[4:], False)]
            else:
                plan.append((8, part, i == 0))
        n = len(plan)
        for i, (width, part, first) in enumerate(plan):
            last = i == n - 1
            star = "*" if width == 16 else ""
            if first:
                head = word(name) + star
            elif cont == "auto":
                head = star or r.choice([" ", "+"])
            else:
                head = (star or "+") + ("" if cont == "+" else "Q%d" % (i - 1))
            per = 8 if width == 8 else 4
            if tab and head.strip():
                cells = part + [""] * (0 if last else per - len(part))
                ln = (head if len(head) == 8 else head + "\t") + "".join(p if len(p) == width else p + "\t" for p in cells)
                if last:
                    ln = ln.rstrip("\t ")
            else:
                ln = head.ljust(8) + "".join(place(p, width) for p in part)
                if not last:
                    ln = ln.ljust(72)
            if last:
                if not lay.get("trail"):
                    ln = ln.rstrip()
            elif cont != "auto":
                nextstar = "*" if plan[i + 1][0] == 16 else "+"
                ln += nextstar + ("" if cont == "+" else "Q%d" % i)
            lines.append(ln)
    if lay.get("trail") and style != "free":
        lines[-1] = lines[-1] + " " * r.randint(0, 6) if len(lines[-1]) < 66 else lines[-1]
    out = []
    for i, ln in enumerate(lines):
        c = lay.get("comment")
        if c == "before" and i == 0:
            out.append(r.choice(["$", "$ a comment, with commas", "$ GRID 1 2 3", "$*****"]))
        if c == "inside" and i > 0 and (style != "free" or cont not in ("auto",)):
            out += ["$ between the lines", "$", "$GRID    77"][:r.choice([1, 1, 2, 3])]
        if c == "blank" and i == 0:
            out.append("")
        if c == "inline" and i == len(lines) - 1:
            ln = ln + r.choice(["$ remark", " $ remark"])
        out.append(ln)
    return out


def layout(r, precise):
    lay = {"seed": r.randrange(10 ** 6)}
    lay["style"] = r.choice(["large", "large", "free"] if precise else ["small", "large", "free", "mix"])
    lay["cont"] = r.choice(["+", "tag", "auto"])
    if r.random() < .7:
        lay["num"] = 1
    if r.random() < .3:
        lay["case"] = r.choice(["lower", "mixed"])
    if r.random() < .5:
        lay["align"] = r.choice(["right", "mixed"])
    elif r.random() < .4:
        lay["tabs"] = 1
    if r.random() < .4:
        lay["comment"] = r.choice(["before", "inside", "blank", "inline"])
    if r.random() < .3:
        lay["trail"] = 1
    if r.random() < .3:
        lay["pad"] = 1
    if r.random() < .6:
        lay["thru"] = r.choice([1, 2])
    return lay


class C01(deckcheck.DeckCheck):
    prop = "C01"
    rule = ("A case counts when the deck translates in its plain layout and the other layout rewrites at least three of its cards "
            "(a different field format, number notation, list notation, letter case, alignment, continuation style or comment).")
    assumptions = ("Both decks are read by the translator under test; the plain layout (8-character fields, explicit '+' continuation, shortest notation) is checked against the "
                   "independent reader by the checks of C03-C10.",
                   "Lines shortened so that a continued 8-character line has fewer than nine fields are padded to column 72 (an existing test of the repository pins the other reading).")
    quick_n, thorough_n = 2600, 40000

    def gen(self, rng):
        target = rng.choice(["ASTER", "SYSTUS", "NASTRAN", "COSMIC"])
        sol = rng.choice([101, 101, 101, 103]) if target != "ASTER" else rng.choice([101, 101, 101, 103, 108, 111])
        c, b = wide.case(rng, target, sols=(sol,), p=rng.choice([.25, .4, .6]))
        precise = rng.random() < .3
        for card in c["deck"]["cards"]:
            k = LISTS.get(card[0])
            if k and len(card) > k and all(isinstance(v, int) for v in card[k:]):
                card[k:] = sorted(card[k:])
            if precise and card[0] in ("GRID", "FORCE", "MAT1", "PBAR", "PSHELL", "MPC"):
                for i, v in enumerate(card):
                    if isinstance(v, float) and v != 0. and rng.random() < .5:
                        card[i] = float("%.9g" % (v * (1 + rng.uniform(-1e-5, 1e-5))))
        c["precise"] = precise
        c["lay"] = [layout(rng, precise) for _ in c["deck"]["cards"]]
        return c

    def base(self, case):
        return dk.render(case["deck"], lambda i, card: lay_card(card, {}, case["precise"]))

    def render(self, case):
        return dk.render(case["deck"], lambda i, card: lay_card(card, case["lay"][i], case["precise"]))

    def judge(self, case):
        if len(case["lay"]) != len(case["deck"]["cards"]):
            raise engine.Skip("layout list")
        s = self.sem(case)
        try:
            base, text = self.base(case), self.render(case)
        except ValueError as e:
            raise Invalid(str(e))
        tags = ["target:" + case["target"]] + (["precise"] if case["precise"] else [])
        a = self.translate(case, text=base)
        if a.rc != 0:
            return engine.Outcome(["exit-code %s: on a well-formed deck: %s" % (a.rc, a.log[-600:])], tags)
        b = self.translate(case, text=text)
        changed = [i for i, l in enumerate(case["lay"]) if lay_card(case["deck"]["cards"][i], l, case["precise"]) != lay_card(case["deck"]["cards"][i], {}, case["precise"])]
        for l in case["lay"]:
            for k in ("style", "cont", "case", "align", "comment"):
                if k in l:
                    tags.append("%s:%s" % (k, l[k]))
            tags += [k for k in ("num", "trail", "pad", "tabs") if k in l]
        if "THRU" in text.upper():
            tags.append("thru")
        if b.rc != 0:
            return engine.Outcome(["layout-exit %s: refused in another layout: %s" % (b.rc, b.log[-600:])], tags, len(changed) >= 3)
        ca, cb = canon.canon(a.files), canon.canon(b.files)
        return engine.Outcome(["layout: " + d for d in canon.diff(ca, cb)], tags, len(changed) >= 3)

    def text(self, case):
        return "$ target %s\n%s" % (case["target"], self.render(case))

    def shrinks(self, case):
        n = len(case["deck"]["cards"])
        for sub in engine.ddmin_list(list(range(n))):
            yield dict(case, deck=dict(case["deck"], cards=[case["deck"]["cards"][i] for i in sub]), lay=[case["lay"][i] for i in sub])
        for i in range(n):
            if case["lay"][i]:
                yield dict(case, lay=case["lay"][:i] + [{}] + case["lay"][i + 1:])
        for i in range(n):
            for k in case["lay"][i]:
                if k != "seed":
                    yield dict(case, lay=case["lay"][:i] + [{a: b for a, b in case["lay"][i].items() if a != k}] + case["lay"][i + 1:])
        for c in super().shrinks(dict(case, deck=dict(case["deck"]))):
            if len(c["deck"]["cards"]) == n:
                yield c


if __name__ == "__main__":
    sys.exit(engine.run(C01()))
