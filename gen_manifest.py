#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json
from checks import CHECKS
TECH = "bounded exhaustive state-space exploration of the real code (every case of finite spaces enumerated, none sampled) against an independent reference model"
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in sorted(CHECKS):
    c = CHECKS[p]
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c.get("technique", TECH),
        "level": "model_checking",
        "level_note": c["note"],
    })
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
