#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None, level="model_checking"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(p={"id": id, "title": title, "statement": statement,
                     "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a},
                  technique=technique, note=note, level=level))

TESTS = "The repository's tests contain no assertion; they print values and fail only by panicking"
exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
        f.write(json.dumps(x["p"], ensure_ascii=False) + "\n")

IMPL = os.path.join(V, "tools", "implemented.txt")
impl = set(open(IMPL).read().split()) if os.path.exists(IMPL) else set()
checks = [{"property": x["p"]["id"],
           "quick_cmd": "./check %s quick" % x["p"]["id"],
           "thorough_cmd": "./check %s thorough" % x["p"]["id"],
           "evidence_file": "evidence/%s.json" % x["p"]["id"],
           "technique": x["technique"], "level": x["level"], "level_note": x["note"]}
          for x in P if x["p"]["id"] in impl]
na = [{"property": x["p"]["id"], "reason": "check not built yet"} for x in P if x["p"]["id"] not in impl]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are committed in /repo: checks build /repo's working tree through a build overlay generated at check time "
              "(statement-level schedule/step points and a controllable stand-in for package sync); see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(P), "properties,", len(checks), "checks")
