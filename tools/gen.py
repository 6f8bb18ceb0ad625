#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from sa/proptable.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.props import P
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P.values():
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({"id": p['id'], "title": p['title'], "statement": p['statement'], "quantifier": {"over": p['over'], "text": p['text']},
                            "why_tests_cant": p['why'],
                            "anchors": {"files": p['files'], "state": [{"name": s[0], "meaning": s[1]} for s in p['state']],
                                        "mechanism": [{"name": m} for m in p['mech']]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m sa.extract --force", "checks": [], "not_applicable": [],
     "notes": "All checks are static analysis of the MIR that rustc (nightly, -Zmir-opt-level=0) produces for /repo's current tree; nothing of tower is executed."}
for p in P.values():
    if p['na']:
        m["not_applicable"].append({"property": p['id'], "reason": p['na']})
    else:
        m["checks"].append({"property": p['id'], "quick_cmd": "python3 check.py %s quick" % p['id'], "thorough_cmd": "python3 check.py %s thorough" % p['id'],
                            "technique": p['technique'], "level": "other", "level_note": p['note'] or TRUST})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
