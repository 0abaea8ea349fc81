#!/usr/bin/env python3
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = json.load(open(os.path.join(root, "checks.json")))
NOTES = json.load(open(os.path.join(root, "tools", "notes.json")))
m = dict(version=1, setup_cmd="bash ./setup.sh", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks:
        m["checks"].append(dict(property=i, quick_cmd="python3 ./check.py %s quick" % i, thorough_cmd="python3 ./check.py %s thorough" % i,
            technique=NOTES[i]["technique"], level="exploration", level_note=NOTES[i]["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check yet: under construction"))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
