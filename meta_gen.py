#!/usr/bin/python3
"""writes properties.jsonl and MANIFEST.json from the table in props_table.py"""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from props_table import PROPS, NOT_APPLICABLE
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        for a in p["files"]: assert os.path.exists(os.path.join("/repo", a)), a
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
na = dict(NOT_APPLICABLE)
checks = []
for p in PROPS:
    if p["id"] in na: continue
    checks.append({"property": p["id"], "quick_cmd": "python3 -B py/vrun.py %s" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 -B py/vrun.py %s" % p["id"],
                   "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()]}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
