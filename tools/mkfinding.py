"""mkfinding.py: helper to add a finding: used interactively."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = os.path.join(V, "known_findings.json")


def load():
    return json.load(open(K)) if os.path.exists(K) else {"findings": []}


def add(prop, name, what, case=None):
    d = load()
    d["findings"] = [k for k in d["findings"] if not (k["property"] == prop and k.get("replay") == "findings/%s.json" % name)]
    json.dump({"property": prop, "case": case}, open(os.path.join(V, "findings", name + ".json"), "w"), indent=1)
    d["findings"].append({"property": prop, "status": "known", "replay": "findings/%s.json" % name, "what": what})
    json.dump(d, open(K, "w"), indent=1)


def fixed(prop, commit, what):
    d = load()
    d["findings"].append({"property": prop, "status": "fixed", "what": "fixed: property=%s %s %s" % (prop, commit, what)})
    json.dump(d, open(K, "w"), indent=1)
