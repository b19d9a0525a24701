#!/bin/bash
# Validates the committed JSON files against the task's schemas.
python3-vt -c "
import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
import glob
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
for l in open('/verif/properties.jsonl'):
  for f in json.loads(l)['anchors']['files']:
    if not os.path.exists('/repo/'+f): print('missing',f)
print('ok')"
