#!/usr/bin/env python3
"""seedmake.py FILE...: each FILE is a python dict {id, property, needs, breaks, edits:[(path, old, new)], main}: makes
seeded/<id> (patch from a scratch copy of /repo, demo, meta) and confirms it with mkseed.sh."""
import sys, os, json, subprocess
W='/tmp/sc'
def sh(*a,**k): return subprocess.run(a,check=True,capture_output=True,text=True,**k).stdout
for f in sys.argv[1:]:
    d=eval(open(f).read())
    S='/verif/seeded/'+d['id']; os.makedirs(S,exist_ok=True)
    sh('git','-C',W,'checkout','-q','--','.'); sh('git','-C',W,'fetch','-q','/repo'); sh('git','-C',W,'reset','-q','--hard',sh('git','-C','/repo','rev-parse','HEAD').strip())
    for p,o,n in d['edits']:
        s=open(W+'/'+p).read(); assert s.count(o)==1,(p,s.count(o),o)
        open(W+'/'+p,'w').write(s.replace(o,n))
    diff=sh('git','-C',W,'diff'); open(S+'/patch.diff','w').write(diff)
    open(S+'/main.rs','w').write(d['main'].lstrip())
    json.dump({"property":d['property'],"needs":d['needs'],"what_it_breaks":d['breaks']},open(S+'/meta.json','w'),indent=1)
    # removed lines should be original ones
    base=sh('git','-C','/repo','ls-tree','-r','--name-only','37e4321')
    for p in {e[0] for e in d['edits']}:
        b=set(l.strip() for l in sh('git','-C','/repo','show','37e4321:'+p).split('\n'))
        for l in diff.split('\n'):
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].strip() not in b: print('not original:',l)
    print(subprocess.run(['/verif/tools/mkseed.sh',d['id']],capture_output=True,text=True).stdout)
