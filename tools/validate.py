#!/opt/veriftools/pyvenv/bin/python3
import json, glob, jsonschema
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l), sch)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
es = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    try: jsonschema.validate(json.load(open(f)), es)
    except Exception as e: print(f, str(e)[:300])
print('valid')
