#!/bin/bash
# validates the committed files against the schemas
cd "$(dirname "$0")/.."; python3-vt -c "
import json,jsonschema
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
v=jsonschema.Draft202012Validator(json.load(open('/root/.vp/PROPERTIES.schema.json')))
for l in open('properties.jsonl'):
  r=json.loads(l)
  for e in v.iter_errors(r): print(r['id'],list(e.path),e.message[:150])
import glob
v=jsonschema.Draft202012Validator(json.load(open('/root/.vp/EVIDENCE.schema.json')))
for f in glob.glob('evidence/C??.json'):
  for e in v.iter_errors(json.load(open(f))): print(f,list(e.path),e.message[:150])
"
