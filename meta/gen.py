#!/usr/bin/env python3
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import props
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [{"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"],
                 "thorough_cmd": "bin/check %s thorough" % p["id"],
                 "technique": "static analysis: " + p["_technique"], "level": p["_level"], "level_note": p["_note"]}
                for p in props.PROPS if p["_technique"]],
     "not_applicable": [{"property": a, "reason": b} for a, b in props.NA]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
try:
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(m, s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), s)
except ImportError:
    pass
