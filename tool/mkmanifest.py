#!/usr/bin/env python3
"""Writes MANIFEST.json from claims.txt (one python dict) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(V, "tool", "claims.txt")).read(), ns)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in ns["CLAIMS"]:
        t, note = ns["CLAIMS"][p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": ns["NA"].get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "All checks analyse /repo's current sources through facts extracted by tool/extract.cpp (clang libTooling); nothing of /repo is executed. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable")
