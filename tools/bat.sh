#!/bin/bash
# bat.sh PROP [seconds] [maxviol]: one exploratory batch on 8 cores, prints violations
export BN=bat$$
cd $(dirname $0)/..; python3 tools/simbuild.py | grep -v simfimex || true
mkdir -p /dev/shm/$BN; rm -f /dev/shm/$BN/o*
for i in 0 1 2 3 4 5 6 7; do ./build/simfimex batch --prop $1 --seed ${SEED:-1} --start $i --stride 8 --seconds ${2:-5} --scratch /dev/shm/$BN/w$i --max-violations ${3:-5} ${@:4} > /dev/shm/$BN/o$i 2>/dev/shm/$BN/e$i & done; wait
cat /dev/shm/$BN/e* | head -5
python3 - <<'PY'
import os,json,glob,collections,subprocess,re
n=0;f=collections.Counter();p=collections.Counter();sc=collections.Counter();races=set();nd=0;slow=0
for g in sorted(glob.glob('/dev/shm/'+os.environ['BN']+'/o*')):
    for l in open(g,errors='replace'):
        if l[0]=='V':
            v=json.loads(l[2:]); print(v['scenario'],v['cls'],v['seed'],v['msg'][:300],'|',v['sample'][-110:])
        elif l[0]=='N': print(l.strip())
        elif l[0]=='S':
            s=json.loads(l[2:]); n+=s['runs']; f.update(s['fired']); p.update(s['probes']); sc.update(s['scenarios']); races|=set(map(tuple,s['races'])); nd+=s['nondet']; slow=max(slow,s['slowest'])
print(n,dict(sc),dict(f),dict(p),'nondet',nd,'slow',slow)
def sy(pc):
    o=subprocess.run(['addr2line','-Cfs','-e','build/simfimex',hex(pc)],stdout=subprocess.PIPE,text=True).stdout.split('\n'); return o[0][:60]+' '+o[1]
for a,b in sorted(races)[:12]: print('race',sy(a),'<>',sy(b))
PY
rm -rf /dev/shm/$BN
