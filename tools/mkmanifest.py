#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in plan.PROPS:
        continue
    p = plan.PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                       thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=p.get("technique", plan.TECHNIQUE), level="exploration",
                       level_note=p.get("note", plan.NOTE)))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
         not_applicable=[dict(property=i, reason=plan.NOT_APPLICABLE.get(i, "not built yet")) for i in ids if i not in plan.PROPS],
         notes="No hooks in /repo are needed: everything is reached through public interfaces.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
