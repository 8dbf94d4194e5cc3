#!/usr/bin/env python3
"""campaign.py OUT [seed [share]]: runs the quick checks against a sample of mechanical mutants of /repo.

Works on copies under /tmp/mut; prints and appends one line per mutant to OUT."""
import os, random, subprocess, sys, shutil, time
out = sys.argv[1]
seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
share = float(sys.argv[3]) if len(sys.argv) > 3 else 0.2
only = sys.argv[4] if len(sys.argv) > 4 else ''
W = '/tmp/mut'
MAP = {
 'datastruct/hash_table.go': 'P06 P11 P08 P09', 'datastruct/keys.go': 'P08 P03 P11', 'datastruct/list.go': 'P04 P09 P08 P11',
 'datastruct/set.go': 'P05 P09 P08 P11', 'datastruct/sorted_set.go': 'P07 P09 P08 P11', 'datastruct/string.go': 'P03 P11 P08',
 'event/': 'P12 P01 P13 P09 P15 P18', 'lib/': 'P08 P03 P18', 'protocol/decode.go': 'P02 P10 P01 P16', 'protocol/encode.go': 'P01 P02 P04',
 'redis/hash': 'P06 P11 P08', 'redis/keys': 'P08 P11 P10', 'redis/list': 'P04 P11 P08', 'redis/set': 'P05 P11 P08', 'redis/sorted': 'P07 P11 P08',
 'redis/string': 'P03 P11 P08', 'redis/command': 'P01 P12 P10 P11 P18', 'server/v1': 'P16 P17 P20 P18', 'server/v2': 'P01 P13 P10 P15 P14 P20 P18',
 'cmd/server': 'P13 P20 P19 P01 P15'}
env = dict(os.environ, SIM_REPO=W + '/repo', SIM_WALL=os.environ.get('SIM_WALL', '10s'), SIM_MIN='0s')
def sh(cmd, cwd=None, t=600, e=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=e or os.environ, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        subprocess.run('pkill -f ^/tmp/mut/ ; true', shell=True)
        return 124, ''
sh('mkdir -p %s' % W)
for d in ('verif', 'repo'):
    shutil.rmtree(W + '/' + d, ignore_errors=True)
sh('git clone -q /verif %s/verif && git clone -q /repo %s/repo' % (W, W))
ms = [l.rstrip('\n').split(' ', 1) for l in sh('/tmp/mutate list %s/repo' % W)[1].splitlines()]
random.Random(seed).shuffle(ms)
ms = [m for m in ms if only in m[1]]
ms = ms[:int(len(ms) * share)]
done = set()
if os.path.exists(out):
    done = {l.split(' ')[1] for l in open(out) if ' ' in l}
for n, text in ms:
    if n in done or os.path.exists('/tmp/mut.stop'):
        continue
    sh('git checkout -q -- . && /tmp/mutate apply %s/repo %s' % (W, n), W + '/repo')
    t0 = time.time()
    f = text.split(':')[0]
    if sh('. /opt/vp/env.sh; go build ./... && go build -tags v1 ./... && go build -tags debug ./cmd/... ', W + '/repo')[0]:
        res = 'nocompile'
    elif sh('. /opt/vp/env.sh; timeout 60 go test -vet=off -count=1 $(go list ./... | grep -v e2e)', W + '/repo')[0]:
        res = 'tests'
    else:
        res = 'SURVIVED'
        for k, v in MAP.items():
            if f.startswith(k):
                for p in v.split():
                    rc, o = sh('./check.sh %s quick' % p, W + '/verif', 300, env)
                    if rc == 1:
                        why = [l for l in o.splitlines() if l.startswith('[')][:1]
                        res = 'caught %s %.0fs %s' % (p, time.time() - t0, (why or [''])[0][:70])
                        break
                    if rc not in (0, 1):
                        res = 'caught? %s rc=%d %s' % (p, rc, o[-100:].replace('\n', ' '))
                        break
                break
    with open(out, 'a') as g:
        g.write('m %s %s => %s\n' % (n, text, res))
sh('rm -rf /tmp/mut/repo /tmp/mut/verif')
