#!/usr/bin/env python3-vt
"""Validates properties.jsonl and MANIFEST.json against their schemas (developer tool)."""
import json, jsonschema
S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), S)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print('valid')
