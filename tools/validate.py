import json, glob, jsonschema
ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json')); es = json.load(open('/root/.vp/EVIDENCE.schema.json'))
ids = []
for l in open('properties.jsonl'):
    o = json.loads(l); jsonschema.validate(o, ps); ids.append(o['id'])
m = json.load(open('MANIFEST.json')); jsonschema.validate(m, ms)
for f in glob.glob('evidence/*.json'):
    jsonschema.validate(json.load(open(f)), es)
assert sorted(ids) == sorted([c['property'] for c in m['checks']] + [c['property'] for c in m['not_applicable']])
print('valid', len(ids))
