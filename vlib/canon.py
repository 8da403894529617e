"""Canonical text of a set of output files: what two runs on the same model must share."""
import re
from . import med


def med_text(data):
    m = med.loads(data)
    out = ["node %d %r" % (i, c) for i, c in enumerate(m.coords)]
    out += ["cell %d %s %s" % (k, t, n) for k, (t, n) in sorted(m.cells.items())]
    out += ["cells %s %s" % kv for kv in sorted((k, sorted(v)) for k, v in m.cell_groups.items())]
    out += ["nodes %s %s" % kv for kv in sorted((k, sorted(v)) for k, v in m.node_groups.items())]
    return out


def canon(files, model="d"):
    """{file name (model name replaced): [lines]}"""
    r = {}
    for name, data in files.items():
        if name == model + ".nas":
            continue           # the Nastran target keeps a copy of its input
        key = name.replace(model, "<m>", 1)
        if name.endswith(".med"):
            r[key] = med_text(data)
            continue
        t = data.decode("latin-1")
        t = re.sub(r"(?m)^(Built by VEGA \S+).*?( SC\d+)? \d{4}-\d\d-\d\d$", r"\1 <run>\2", t)
        t = re.sub(r"\S*vegachk_[^\s'\",]*", "<path>", t)
        if model != "d":
            t = re.sub(r"\b%s\b" % re.escape(model), "d", t)
        t = re.sub(r"input\[\d+\]:'[^\n]*?'(?=[;}\]])", "input", t)
        r[key] = [ln for ln in t.split("\n") if not (name.endswith(".comm") and ln.startswith("#"))]
    return r


def diff(a, b, what="", limit=3):
    """short description of the first differences of two canonical forms; [] when equal"""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            out.append("%s only in the %s translation" % (k, "second" if k not in a else "first"))
            continue
        if a[k] != b[k]:
            ds = [(x, y) for x, y in zip(a[k], b[k]) if x != y][:limit]
            if len(a[k]) != len(b[k]):
                ds.append(("%d lines" % len(a[k]), "%d lines" % len(b[k])))
            out.append("%s: %s" % (k, "; ".join("%r became %r" % (x[:160], y[:160]) for x, y in ds)))
    return out
