#!/usr/bin/env python3-vt
import json,jsonschema,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def chk(s,o,n):
    try: jsonschema.validate(o,json.load(open('/root/.vp/'+s)))
    except Exception as e: print(n,str(e)[:400])
for l in open(V+'/properties.jsonl'): o=json.loads(l); chk('PROPERTIES.schema.json',o,o['id'])
if os.path.exists(V+'/MANIFEST.json'): chk('MANIFEST.schema.json',json.load(open(V+'/MANIFEST.json')),'MANIFEST')
for f in glob.glob(V+'/evidence/*.json'): chk('EVIDENCE.schema.json',json.load(open(f)),f)
