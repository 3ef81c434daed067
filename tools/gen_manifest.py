#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = json.load(open(os.path.join(V, 'tools/checks.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {"version": 1, "setup_cmd": "bash tools/build.sh all", "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p['id'])
    if c:
        m["checks"].append({"property": p['id'], "quick_cmd": f"bash tools/check.sh {p['id']} quick", "thorough_cmd": f"bash tools/check.sh {p['id']} thorough",
                            "technique": c['technique'], "level": c['level'], "level_note": c['note']})
    else:
        m["not_applicable"].append({"property": p['id'], "reason": "its check is not built yet"})
m["notes"] = "No hooks in /repo are needed: every check uses the crate's public API and the papyri command. See DESIGN.md."
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
