#!/usr/bin/env python3
"""Writes properties.jsonl (the text lives here so that it can be reviewed as prose)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["Merlin++/" + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.txt")).read())
assert len({x["id"] for x in P}) == len(P)
for x in P:
    assert len(x["title"]) <= 80, x["id"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
