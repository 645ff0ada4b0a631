#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
m = {"version": 1, "setup_cmd": "python3 sim/build.py",
     "hooks": {"guard": HOOK_GUARD, "enable": HOOK_ENABLE, "source_commits": HOOK_COMMITS},
     "checks": [], "not_applicable": [], "notes": NOTES}
for pid, (level, note, tech) in CLAIMED.items():
    m["checks"].append({"property": pid, "quick_cmd": "VERIF_TIER=quick ./check.sh " + pid, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + pid,
                        "technique": tech, "level": level, "level_note": note, "evidence_file": "evidence/%s.json" % pid})
for pid, r in NA.items(): m["not_applicable"].append({"property": pid, "reason": r})
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
