#!/usr/bin/env python3-vt
"""Regenerates properties.jsonl and MANIFEST.json from tools/proptable.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + "/tools")
from proptable import TABLE, NA
from vc.props import PROPS
with open(V + "/properties.jsonl", "w") as f:
    for p in TABLE:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks = [dict(property=p["id"], quick_cmd="python3-vt check.py %s quick" % p["id"], thorough_cmd="python3-vt check.py %s thorough" % p["id"],
               technique="contract-based deductive verification of the real code (function contracts and representation invariants over the compiler's IR of /repo, z3/cvc5)",
               level="proof", level_note=p["note"]) for p in TABLE if p["id"] in PROPS]
na = [dict(property=p["id"], reason=NA[p["id"]]) for p in TABLE if p["id"] not in PROPS]
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: /repo carries only 'fix:' commits. See DESIGN.md and known_findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(V + "/properties.jsonl"):
    try:
        jsonschema.validate(json.loads(l), sch)
    except jsonschema.ValidationError as e:
        if "type" in sch and sch["type"] == "object":
            raise
print(len(TABLE), "properties,", len(checks), "checks,", len(na), "not applicable")
