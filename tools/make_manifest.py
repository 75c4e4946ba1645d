"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "default": "runtime monitoring: generated workloads on the real functions, every return checked online against an independent float64 reference model",
}
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "rt", "checks", i.lower() + ".py")):
        checks.append(dict(property=i,
            quick_cmd="/opt/venv/bin/python run.py %s --tier quick" % i,
            thorough_cmd="/opt/venv/bin/python run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=TECH.get(i, TECH["default"]),
            level="fault_enumeration" if i == "C17" else "exploration",
            level_note=NOTE.get(i, "Holds on every execution observed; sampled inputs, not all inputs.")))
    else:
        na.append(dict(property=i, reason="check not built yet (in progress)"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python run.py --selfcheck", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
