"""Validates properties.jsonl, MANIFEST.json and evidence/*.json against the schemas in /root/.vp."""
import json, glob, jsonschema
S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
for i, l in enumerate(open("/verif/properties.jsonl")):
    jsonschema.validate(json.loads(l), S("PROPERTIES"))
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), S("MANIFEST"))
for f in glob.glob("/verif/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), S("EVIDENCE"))
print("ok", i + 1)
