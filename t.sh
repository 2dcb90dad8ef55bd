#!/bin/bash
# developer aid: run a property with --keep-going and list the distinct failure groups
# usage: t.sh ID [cases] [seed] [extra args]
cd "$(dirname "$0")" || exit 2
python3 build.py > /tmp/build.log || { grep -m3 -B1 -A1 'error' /tmp/build.log | cut -c1-200; exit 2; }
mkdir -p replays
$PRE ./build/vfcheck --prop $1 --seed ${3:-1} --cases ${2:-8000} --workers 8 --out /tmp/e.json --replaydir replays --tier quick --budget ${B:-60} --keep-going "${@:4}" > /tmp/out.txt 2>&1
python3 - <<'P'
import json,re,os
W=int(os.environ.get('W','330'))
seen={}
L=open('/tmp/out.txt').read().split('\n')
for i,l in enumerate(L):
    if l.startswith('GROUP'):
        k=l.split()[1]
        b=re.sub(r'^[sdcz]{1,2}(?=\w\w)','',k)
        seen.setdefault(b,[]).append((l[6:],L[i+1].strip() if i+1<len(L) else ''))
for b,v in seen.items():
    print('#',', '.join(x[0] for x in v)[:150]); print('   ',v[0][1][:W])
for l in L:
    if re.match(r'KNOWN|error|terminate',l): print(l[:W])
e=json.load(open('/tmp/e.json'))['coverage']
print({k:v for k,v in e.items() if k not in('samples','labels','rule')})
P
