import json,jsonschema,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/MANIFEST.schema.json'));jsonschema.validate(json.load(open(V+'/MANIFEST.json')),s)
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
n=0
for l in open(V+'/properties.jsonl'):
    jsonschema.validate(json.loads(l),s); n+=1
import glob
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(V+'/evidence/*.json'):
    jsonschema.validate(json.load(open(f)),e)
print('valid', n)
