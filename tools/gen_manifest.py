#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per rules/pXX.py, the rest of properties.jsonl under not_applicable."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from manifest_table import CLAIMED, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for i in ids:
    if i in CLAIMED and os.path.exists(os.path.join(HERE, "rules", i.lower() + ".py")):
        tech, note = CLAIMED[i][:2]
        level = CLAIMED[i][2] if len(CLAIMED[i]) > 2 else "other"
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no sound check built for it yet")))
json.dump(dict(version=1, setup_cmd="python3 -c 'import ast'", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
