#!/usr/bin/env python3-vt
"""validates properties.jsonl, MANIFEST.json and the evidence files against the schemas"""
import glob, json, os
import jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
for l in open(V + "/properties.jsonl"):
    jsonschema.validate(json.loads(l), S("PROPERTIES"))
jsonschema.validate(json.load(open(V + "/MANIFEST.json")), S("MANIFEST"))
for f in glob.glob(V + "/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), S("EVIDENCE"))
print("valid")
