import json, jsonschema, sys
S='/root/.vp/'
ps=json.load(open(S+'PROPERTIES.schema.json'))
ids=set()
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,ps); assert p['id'] not in ids; ids.add(p['id'])
    n=p['statement'].count('. ')+1
    if n>3: print('statement sentences?',p['id'],n)
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open(S+'MANIFEST.schema.json')))
c={x['property'] for x in m['checks']}; na={x['property'] for x in m.get('not_applicable',[])}
assert c|na==ids and not c&na,(ids-c-na,c&na)
import glob,os
es=json.load(open(S+'EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print('ok',len(ids),'props',len(c),'claimed')
