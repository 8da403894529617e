"""Nastran decks as data: cards, case control, rendering, generic shrinking."""
import json


def real(x, width=8):
    """Shortest exact rendering of x as a Nastran real of at most `width` characters."""
    if x == 0:
        return "0."
    cands = []
    r = repr(float(x))
    if "e" not in r and "E" not in r:
        s = r
        if s.endswith(".0"):
            s = s[:-1]
        cands.append(s)
        if s.startswith("0.") and len(s) > 2:
            cands.append(s[1:])
        if s.startswith("-0.") and len(s) > 3:
            cands.append("-" + s[2:])
    for p in range(0, 17):
        m, e = ("%.*E" % (p, x)).split("E")
        if "." not in m:
            m += "."
        s = "%s%+d" % (m, int(e))
        cands.append(s)
        if float("%sE%d" % (m, int(e))) == x:
            break
    for s in cands:
        if len(s) <= width and parse_real(s) == x:
            return s
    raise ValueError("cannot render %r in %d characters" % (x, width))


def parse_real(s):
    s = s.strip().replace("D", "E").replace("d", "e")
    i = max(s.rfind("+"), s.rfind("-"))
    if i > 0 and s[i - 1] not in "eE":
        s = s[:i] + "E" + s[i:]
    return float(s)


def field(v, width=8):
    if v is None:
        return ""
    if isinstance(v, bool):
        raise ValueError
    if isinstance(v, int):
        s = str(v)
    elif isinstance(v, float):
        s = real(v, width)
    else:
        s = str(v)
    if len(s) > width:
        raise ValueError("field too long: %r" % s)
    return s


def strip_tail(fields):
    f = list(fields)
    while f and f[-1] is None:
        f.pop()
    return f


def small(card, cont="+"):
    name, fields = card[0], strip_tail(card[1:])
    lines = []
    for i in range(0, max(1, len(fields)), 8):
        head = name if i == 0 else cont
        lines.append((head.ljust(8) + "".join(field(v).ljust(8) for v in fields[i:i + 8])).rstrip())
        if i + 8 < len(fields):
            # explicit full width so that no reader can lose blank trailing fields
            lines[-1] = lines[-1].ljust(72) + "+"
    return lines


def large(card):
    name, fields = card[0], strip_tail(card[1:])
    lines = []
    n = max(1, (len(fields) + 7) // 8) * 8
    fields = fields + [None] * (n - len(fields))
    for i in range(0, n, 4):
        head = (name + "*") if i == 0 else "*"
        lines.append(head.ljust(8) + "".join(field(v, 16).ljust(16) for v in fields[i:i + 4]))
    return lines


def free(card):
    name, fields = card[0], strip_tail(card[1:])
    lines = []
    for i in range(0, max(1, len(fields)), 8):
        part = [field(v, 16) for v in fields[i:i + 8]]
        last = i + 8 >= len(fields)
        if not last:
            part += [""] * (8 - len(part)) + ["+"]
        lines.append(",".join([name if i == 0 else "+"] + part))
    return lines


def render(deck, card_style=None):
    """deck = {"exec": [...], "cc": [...], "cards": [[name, f...]...]}"""
    out = list(deck.get("exec", ["SOL 101", "CEND"])) + list(deck["cc"]) + ["BEGIN BULK"]
    for i, c in enumerate(deck["cards"]):
        out += (card_style(i, c) if card_style else small(c))
    out.append("ENDDATA")
    return "\n".join(out) + "\n"


def parse_field(s):
    s = s.strip()
    if s == "":
        return None
    try:
        if s.lstrip("+-").isdigit():
            return int(s)
    except ValueError:
        pass
    try:
        return parse_real(s)
    except ValueError:
        return s


def parse_small(text):
    """Reads a deck written in 8-character fields -> deck. Independent of VEGA's tokenizer."""
    cards, cc, ex = [], [], []
    bulk = False
    for ln in text.split("\n"):
        s = ln.rstrip()
        if not s or s.startswith("$"):
            continue
        if not bulk:
            if s.strip().upper().startswith("BEGIN"):
                bulk = True
            else:
                cc.append(s.strip())
            continue
        if s.strip().upper() == "ENDDATA":
            break
        if s[0] in "+ *":
            if not cards:
                raise ValueError("continuation without a card: %r" % s)
            c = cards[-1]
            while (len(c) - 1) % 8:
                c.append(None)
        elif "," in s[:9]:
            cards.append([x.strip().upper() if k == 0 else parse_field(x) for k, x in enumerate(s.split(","))])
            continue
        else:
            c = [s[:8].strip().upper()]
            if "," in s or "*" in s[:8]:
                raise ValueError("not an 8-character-field line: %r" % s)
            cards.append(c)
        for i in range(8, min(len(s), 72), 8):
            c.append(parse_field(s[i:i + 8]))
    for c in cards:
        while len(c) > 1 and c[-1] is None:
            c.pop()
    return {"exec": [], "cc": cc, "cards": cards}


def size(deck):
    return len(deck["cards"]) * 1000 + len(deck["cc"]) * 200 + sum(len(c) for c in deck["cards"])


def clone(x):
    return json.loads(json.dumps(x))
