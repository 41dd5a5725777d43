#!/bin/bash
# survey.sh SECS PROP...: which violation classes do runs of a property show (no minimisation)
S=$1; shift
for p in "$@"; do
  for k in 0 1 2 3 4 5 6 7; do
    ${VSIM:-/verif/sim/target/release/vsim} worker --prop $p --seed ${SEED:-1} --start $k --stride 8 --ms $((S*1000)) --bin ${VSIM_BIN:-/tmp/tgt/release/vimwiki} --shim ${VSIM_SHIM:-/tmp/shim.so} > /tmp/survey.$p.$k 2>&1 &
  done; wait
  cat /tmp/survey.$p.? | python3 -c "
import sys,json,collections
n=0;c=collections.Counter();ex={};end={};panics=[]
for l in sys.stdin:
    if l.startswith('END '):
        e=json.loads(l[4:])
        for k,v in e.items():
            if isinstance(v,int): end[k]=end.get(k,0)+v
        continue
    try: r=json.loads(l)
    except Exception: panics.append(l[:200]); continue
    n+=1
    if r['viol']:
        k=r['viol']['class']; c[k]+=1
        ex.setdefault(k,[]).append((r['seed'],r['viol']['detail'][:420]))
print('==','$p',n,'runs',dict(c),end)
for k in ex:
    for s,d in ex[k][:${N:-2}]: print('  ',k,s,d)
for p in panics[:5]: print('  !!',p.rstrip())
"
done
