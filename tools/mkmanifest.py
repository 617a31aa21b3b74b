#!/usr/bin/env python3
"""Writes MANIFEST.json; the claimed checks are those with a driver harness/p_<id>.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "p_%s.py" % i.lower())):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="VERIF_TIER=thorough ./check.sh " + i,
            technique=n.get("technique", "TLA+ specification model-checked with TLC; recorded executions validated against it by TLC (trace validation)"),
            level="model_checking", level_note=n.get("note", "bounded")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="All checks import hvd from /repo's working tree (pure Python, nothing to build); no hooks in /repo are needed."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
