"""python3-vt tools/validate.py : properties.jsonl and MANIFEST.json against their schemas."""
import json, re, jsonschema
P = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("/verif/properties.jsonl"):
    p = json.loads(l); jsonschema.validate(p, P)
    n = len(re.findall(r"\.(?:\s|$)", p["statement"]))
    if n > 3: print(p["id"], n, "sentences")
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
print("valid")
