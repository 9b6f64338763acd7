#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claims below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check is built for this property yet.")})
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
