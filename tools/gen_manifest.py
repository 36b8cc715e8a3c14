#!/usr/bin/env python3
"""Writes MANIFEST.json from the headers of harness/Pxx.cc."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
NA = {}
for i in ids:
    f = "%s/harness/%s.cc" % (V, i)
    if not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "no check built yet")}); continue
    m = check.metadata(f)
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "technique": m["TECHNIQUE"], "level": m["LEVEL"], "level_note": m["LEVEL_NOTE"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "check.py builds harness/<id>.cc against /repo's working tree and runs it; see DESIGN.md"}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
