#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/registry.py, properties.jsonl and na.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
os.chdir(here)
sys.path.insert(0, "sim")
import registry
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
na = json.load(open("na.json"))
checks = []
for p in props:
    if p in registry.MODULES:
        checks.append(dict(property=p, quick_cmd="python3 sim/run.py %s --tier quick" % p,
                           thorough_cmd="python3 sim/run.py %s --tier thorough" % p,
                           technique=registry.TECHNIQUE.get(p, "deterministic simulation, seeded schedule and fault search"),
                           level="exploration", level_note=registry.NOTE.get(p, "")))
    elif not any(n["property"] == p for n in na):
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
