#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines ID, PROP, EDITS=[(file, old, new)...], NEEDS, BREAKS, DECK(s) and CHECK (python source of the demo).
Writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json}. /repo is left as it was."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''import os, re, subprocess, sys, tempfile, shutil
def vega(deck, target, *opts, mode="-s", name="d.nas"):
    """exit code, {file: text}, log; everything happens in a scratch directory"""
    d = tempfile.mkdtemp(prefix="demo_")
    try:
        p = os.path.join(d, name)
        open(p, "w").write(deck)
        o = os.path.join(d, "out")
        os.mkdir(o)
        r = subprocess.run([os.path.abspath("_build/bin/vegapp"), "-o", o, mode, *opts, p, "NASTRAN", target], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        return r.returncode, {f: open(os.path.join(o, f), "rb").read().decode("latin-1") for f in os.listdir(o)}, r.stdout.decode("latin-1")
    finally:
        shutil.rmtree(d)
def pick(files, suffix):
    return [v for k, v in sorted(files.items()) if k.endswith(suffix)][0]
def nas_cards(text):
    """cards of an 8-character-field deck"""
    out = []
    for ln in text.split("BEGIN BULK")[1].split("\n"):
        if not ln.strip() or ln[0] == "$" or ln.startswith("ENDDATA"):
            continue
        f = [ln[i:i + 8].strip() for i in range(0, min(len(ln), 72), 8)]
        if ln[0] in "+ *":
            out[-1] += [""] * (-(len(out[-1]) - 1) % 8) + f[1:]
        else:
            out.append(f)
    return out
def real(s):
    m = re.match(r"^([+-]?[\d.]+)([+-]\d+)$", s)
    return float(m.group(1) + "E" + m.group(2)) if m else float(s)
def need(cond, msg):
    if not cond:
        print("FAIL:", msg)
        sys.exit(1)
'''


def make(s):
    d = os.path.join(V, "seeded", s["ID"])
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True).stdout == b"", "repo not clean"
    try:
        for f, old, new in s["EDITS"]:
            p = os.path.join("/repo", f)
            t = open(p, newline="").read()
            assert t.count(old) == 1, "%s: %d occurrences of %r" % (f, t.count(old), old[:60])
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
        # only lines of the original repository may change
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(os.path.join(d, "demo.py"), "w").write(PRE + s["CHECK"])
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    for p in sys.argv[1:]:
        s = {}
        exec(open(p).read(), s)
        for x in s.get("ALL", [s]):
            make(x)
            print(x["ID"])
