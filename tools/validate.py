import json,jsonschema,re,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s)
    n=len(re.findall(r'[.](?:\s|$)',p['statement'])); print(p['id'],len(p['title']),n)
if os.path.exists('MANIFEST.json'): jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir('evidence'):
    if f.endswith('.json'): jsonschema.validate(json.load(open('evidence/'+f)),s)
