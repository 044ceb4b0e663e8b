import json,sys,jsonschema,glob,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s=json.load(open('/root/.vp/PROPERTIES.schema.json')); ids=set()
for l in open('properties.jsonl'):
    o=json.loads(l); jsonschema.validate(o,s); assert o['id'] not in ids; ids.add(o['id'])
m=json.load(open('MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
c={x['property'] for x in m['checks']}; n={x['property'] for x in m.get('not_applicable',[])}
assert c|n==ids and not c&n,(ids-c-n,(c|n)-ids)
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print('ok',len(ids),'properties',len(c),'checks')
