#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the modules under vp/props."""
import importlib, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
P = {}
for f in sorted(os.listdir(os.path.join(root, "vp/props"))):
    if f.endswith(".py") and f[0] != "_":
        P.update(getattr(importlib.import_module("vp.props." + f[:-3]), "PROPS", {}))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in P:
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "technique": P[i].get("technique", "property-based testing: generated inputs against a reference model, with shrinking"),
            "level": "exploration",
            "level_note": P[i].get("note", "Random structured search against an explicit oracle on the real extension in a real PostgreSQL 16 server; assurance is limited to the generated cases. Trusts PostgreSQL, libpq and the oracle in vp/props."),
        })
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet"})
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks: everything is driven through the SQL interface or public crate APIs. known_findings.json lists defects repaired by fix: commits and any recorded findings."}
json.dump(out, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
