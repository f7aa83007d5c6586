#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/properties.txt."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for line in open(os.path.join(VERIF, "meta", "properties.txt")):
    line = line.rstrip("\n")
    if not line.strip() or line.startswith("#"):
        continue
    k, v = line.split(": ", 1)
    if k == "id":
        props.append({"mech": []})
    if k == "mech":
        props[-1]["mech"].append(v)
    else:
        assert k not in props[-1], (k, v)
        props[-1][k] = v
checks = []
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"].split(", "), "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {
                 "files": p["files"].split(", "),
                 "mechanism": [dict(zip(("name", "where"), m.split(" @ ")))
                               for m in p["mech"]],
                 "observe_at": p["observe"].split("; "),
                 "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
        c = "python3 tools/check.py " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": c,
                       "thorough_cmd": "VERIF_TIER=thorough " + c,
                       "technique": p["technique"], "level": "exploration",
                       "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --build",
     "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks use the public interface of the library "
              "built from /repo's working tree with sanitizers."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
