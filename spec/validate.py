#!/usr/bin/env python3-vt
"""Validates properties.jsonl, MANIFEST.json and the evidence against the schemas."""
import json, jsonschema, glob
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    for e in jsonschema.Draft202012Validator(s).iter_errors(json.loads(l)):
        print(json.loads(l)['id'], e.message[:200])
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    for e in jsonschema.Draft202012Validator(s).iter_errors(json.load(open(f))):
        print(f, e.message[:200])
