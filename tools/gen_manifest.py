#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a module under dbv/props."""
import importlib, json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "dbv", "props", i.lower() + ".py")):
        tech, note = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run_check.py {i} --tier quick", thorough_cmd=f"python3 run_check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique="runtime monitoring: " + tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="check under construction"))
out = dict(version=1, setup_cmd="python3 run_check.py --selftest", checks=checks, not_applicable=na)
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
