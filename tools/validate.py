import json,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
for p in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(p)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print("ok")
