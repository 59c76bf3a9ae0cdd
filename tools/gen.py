#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one table, so they stay in step)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from props import PROPS, NA
have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "sa", "checks")) if f.startswith("c") and f.endswith(".py")}
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as h:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        h.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"],
                                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
for p in PROPS:
    if p["id"] in have:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                       "thorough_cmd": "python3 check.py " + p["id"],
                       "technique": p["tech"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("reason", "no check built yet")})
for p in NA:
    na.append({"property": p["id"], "reason": p["reason"]})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'.'); sys.dont_write_bytecode=True; import sa.fw\"",
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

try:
    import jsonschema
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except ImportError:
    print("no jsonschema here; use python3-vt")
