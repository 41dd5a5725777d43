#!/bin/bash
# determinism.sh RUNS SEED PROP...: the same runs twice with 4 workers and once with 1 worker must leave the same traces
V=$(cd "$(dirname "$0")/.." && pwd); N=$1; S=$2; shift 2
W=$(mktemp -d)
pick() { cat "$@" | python3 -c "
import sys,json
for l in sys.stdin:
    if l[0]!='{': continue
    r=json.loads(l); print(r['i'],r['seed'],r['hash'],r['ilv'],r['viol'] and r['viol']['class'])" | sort -n; }
for p in "$@"; do
  case $p in C13|C14) X="$V/build/tsim/release/tsim"; A=();; *) X="$V/build/sim/release/vsim"; A=(--bin "$V/build/cli/release/vimwiki" --shim "$V/build/shim.so");; esac
  for k in a b; do
    for w in 0 1 2 3; do "$X" worker --prop $p --seed $S --start $w --stride 4 --ms 3600000 --runs $N "${A[@]}" > $W/$k.$w & done; wait
    pick $W/$k.? > $W/$k
  done
  "$X" worker --prop $p --seed $S --start 0 --stride 1 --ms 3600000 --runs $N "${A[@]}" > $W/c.0; pick $W/c.0 > $W/c
  n=$(wc -l < $W/a)
  if cmp -s $W/a $W/b && cmp -s $W/a $W/c; then echo "$p: $n runs, identical"; else echo "$p: $n runs, $(diff $W/a $W/b | grep -c '^<') and $(diff $W/a $W/c | grep -c '^<') differ"; fi
done
rm -r "$W"
