"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C03": "property-based testing: generated decks of nested coordinate systems against an independent reference interpreter",
}
NOTE = {
 "C03": "thousands of generated decks per run, all three outputs read back and compared with reference positions; a search, not a proof",
}
DEFAULT_TECH = "property-based testing against an explicit oracle over generated inputs"
DEFAULT_NOTE = "generated-input search with an explicit oracle; bounded by the generator's classes listed in DESIGN.md"
try:
    exec(open(os.path.join(V, "tools", "technique.py")).read())
except FileNotFoundError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DEFAULT_TECH), "level": "exploration",
                       "level_note": NOTE.get(i, DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": "not built yet: no check is claimed for it at this commit"})
m = {"version": 1, "setup_cmd": "python3-vt -c \"from vlib import build; build.build('vegapp')\"", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks drive the built translator and its classes from outside", "source_commits": []},
     "notes": "Every check builds the non-test sources of /repo with build.d/Makefile into .build (ignored by git)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
