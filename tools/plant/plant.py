import os,sys,json,re,shutil
sys.path.insert(0,'/tmp/bugs')
S=os.environ.get('S','/tmp/w/seeded')
DEMO_PY='''#!/bin/bash
# cwd: the repository. Exits 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
exec python3 "$here/demo.py"
'''
def bug(id, prop, needs, breaks, edits, demo, sh=None, files=None):
    d=f'{S}/{id}'; os.makedirs(d,exist_ok=True)
    ed="import sys,os\nroot=sys.argv[1]\n"
    ed+="edits="+repr(edits)+"\n"
    ed+='''for f,o,n in edits:
    p=os.path.join(root,f); s=open(p).read()
    assert s.count(o)==1,(f,o,s.count(o))
    open(p,'w').write(s.replace(o,n))
'''
    open(f'/tmp/bugs/{id}.py','w').write(ed)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write(sh or DEMO_PY)
    os.chmod(d+'/demo.sh',0o755)
    if demo:
        open(d+'/demo.py','w').write(demo)
        shutil.copy('/tmp/bugs/godis.py',d+'/godis.py')
    for n,t in (files or {}).items(): open(f'{d}/{n}','w').write(t)
HEAD='''from godis import *
with Tmp() as d:
    with Server(build(d)) as s:
        c = s.client()
'''
def body(t): return HEAD+''.join('        '+l+'\n' if l else '\n' for l in t.strip('\n').split('\n'))
