"""Validate MANIFEST.json and properties.jsonl against their schemas (run with python3-vt)."""
import json, jsonschema
m=json.load(open("/verif/MANIFEST.json")); jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
ids=[]
for l in open("/verif/properties.jsonl"):
    r=json.loads(l); jsonschema.validate(r,s); ids.append(r["id"])
c={x["property"] for x in m["checks"]}|{x["property"] for x in m["not_applicable"]}
assert c==set(ids),(c^set(ids))
print("ok",len(ids),len(m["checks"]))
