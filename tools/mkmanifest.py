#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from the registry and the texts below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import registry
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t, note = registry.TEXT[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}", technique=t,
                           level=registry.LEVEL.get(i, "model_checking"), level_note=note))
    else: na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
if registry.HOOKS: m["hooks"] = registry.HOOKS
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
