#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVED = json.load(open(os.path.join(V, "tools", "levels.json")))
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    lv = PROVED.get(p, {})
    checks.append(dict(
        property=p, quick_cmd="./check.py %s quick" % p, thorough_cmd="./check.py %s thorough" % p,
        technique=lv.get("technique", "executable contracts on the real code (bounded stand-in)"),
        level=lv.get("level", "exploration"),
        level_note=lv.get("note", "bounded: exhaustive small grammars and seeded random larger ones")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[]),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
