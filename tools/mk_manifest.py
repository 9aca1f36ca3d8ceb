#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"./run_check.sh {i} quick",
                           thorough_cmd=f"./run_check.sh {i} thorough",
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks,
               not_applicable=na,
               notes="TLA+ specifications in spec/, decided with TLC; conformance of /repo by replaying TLC's behaviours and by judging recorded behaviours with TLC. See DESIGN.md."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not built")
