#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def a(files, mech, **kw):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    d.update(kw)
    return d

PR, UT, CC, ZK = "pairing/", "utils/", "circuitcompiler/", "zkSNARK/"
props = []
def P(id, title, statement, over, text, why, anchors, technique=None, level=None, note=None, na=None):
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, anchors=anchors,
                      technique=technique, level=level, note=note, na=na))

exec(open(os.path.join(here, "tools", "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": p["anchors"]}) + "\n")
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": [],
     "notes": "All checks run one static analyser (checker/, Go, x/tools/go/ssa vendored) on /repo's current sources; nothing of /repo is executed. No hooks in /repo."}
for p in props:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"],
                            "thorough_cmd": "./run.sh %s thorough" % p["id"],
                            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
for p in props:
    assert len(p["title"]) <= 80, p["id"]
    assert p["na"] or p["technique"], p["id"]
