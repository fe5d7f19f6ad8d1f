#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the checks present in checks/."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(R, "tools", "notes.py")).read())
checks = []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(R, "checks", i.lower() + ".py")):
        continue
    checks.append(dict(property=i, quick_cmd="./check.sh %s --quick" % i,
                       thorough_cmd="./check.sh %s --thorough" % i,
                       technique=NOTE[i][0], level="exploration", level_note=NOTE[i][1]))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[]),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
