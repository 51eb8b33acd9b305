#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py's tables."""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import props
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i in props.TECH:
        tech, level, note = props.TECH[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note))
na = [dict(property=i, reason=props.NA.get(i, "check still under construction")) for i in ids if i not in props.TECH]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
