#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.py and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(V + "/tools/claims.py").read(), ns)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ns["CLAIMS"] and os.path.exists(V + "/sa/props/%s.py" % i.lower()):
        t, note = ns["CLAIMS"][i]
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --thorough" % i, "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": ns["NA"].get(i, "The check for this property is not built yet.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": ns["NOTES"]}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
