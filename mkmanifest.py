#!/usr/bin/env python3
# Writes MANIFEST.json from props.py; run after changing it.
import json
from props import PROPS, NOT_APPLICABLE
checks = []
for pid in sorted(PROPS):
    s = PROPS[pid]
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": s["technique"], "level": s.get("level", "model_checking"), "level_note": s["note"]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
