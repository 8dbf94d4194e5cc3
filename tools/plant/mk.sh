#!/bin/bash
# mk.sh id : expects /verif/seeded/id/{edit.py,meta.json,demo.*}; creates patch.diff, verifies
id=$1; S=/tmp/w/seeded/$id; W=/tmp/bugwt
. /opt/vp/env.sh
[ -d $W ] || git -C /repo worktree list >/dev/null
rm -rf /tmp/bugwt; cp -a /repo /tmp/bugwt
cd $W && git checkout -q -- . 
[ -f $S/patch.diff ] || { python3 /tmp/bugs/$id.py $W || exit 1; git diff > $S/patch.diff; git checkout -q -- .; }
# repo at its own place needed? demo runs with cwd
D=/tmp/bugdemo; rm -rf /tmp/bugdemo; cp -r $S $D; rm -f $D/*.diff $D/meta.json
cd $W; timeout 300 bash $D/demo.sh >/tmp/bugs/$id.clean.log 2>&1; c=$?
git apply $S/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
go build ./... && go build -tags v1 ./... && go build -tags debug ./... || { echo "$id BUILD FAIL"; exit 1; }
go vet ./... >/tmp/bugs/$id.vet 2>&1
go test -json ./... > /tmp/bugs/$id.t.json 2>/dev/null
python3 - $id <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
names=base if isinstance(base,list) else base.get('stable') or base.get('tests') or list(base.values())[0]
names=set(names if not isinstance(names,dict) else names.keys())
ok=set()
for l in open('/tmp/bugs/%s.t.json'%sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add((e['Package'],e['Test']))
okn={p+'::'+t for p,t in ok}|{p+'/'+t for p,t in ok}|{p+'.'+t for p,t in ok}|{t for p,t in ok}
miss=[n for n in names if n not in okn]
print(sys.argv[1],'tests missing:',miss[:5])
P
timeout 300 bash $D/demo.sh >/tmp/bugs/$id.bad.log 2>&1; b=$?
echo "$id demo clean=$c bad=$b $(tail -1 /tmp/bugs/$id.bad.log)"
rm -rf /tmp/bugdemo /tmp/bugwt
