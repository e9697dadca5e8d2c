#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claims below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
T = "TLA+ specification model-checked with TLC; behaviours generated by TLC replayed in the real code; recorded traces decided by TLC"
CLAIMS = json.load(open(f"{V}/claims.json"))
checks, na = [], []
for i in ids:
    c = CLAIMS.get(i, {})
    if "note" in c:
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} thorough",
                       "technique": c.get("technique", T), "level": "model_checking", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": c.get("na", "check not built")})
json.dump({"version": 1, "setup_cmd": "python3 -m py_compile lib/vp.py && tlc -h >/dev/null 2>&1; true",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: behaviour is observed through public interfaces, subclasses and MPI profiling wrappers. Repairs are the 'fix:' commits listed in known/findings.txt."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
