#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's current tree (VERIF_SEED, VERIF_TIER)
V=$(cd "$(dirname "$0")" && pwd)
P=$1
seed=${VERIF_SEED:-1}; tier=${VERIF_TIER:-quick}
t0=$(date +%s)
case $P in C13|C14) part=threads;; C18) part=clitk;; *) part=cli;; esac
bash "$V/build.sh" $part || exit 2
t1=$(date +%s)
if [ "$tier" = thorough ]; then secs=${VERIF_SECS:-1200}; else secs=${VERIF_SECS:-40}; fi
if [ $part = threads ]; then
  exec "$V/build/tsim/release/tsim" check --prop "$P" --seed "$seed" --tier "$tier" --secs "$secs" --verif "$V"
fi
exec "$V/build/sim/release/vsim" check --prop "$P" --seed "$seed" --tier "$tier" --secs "$secs" \
  --bin "$V/build/cli/release/vimwiki" --shim "$V/build/shim.so" --verif "$V" --build-s $((t1-t0))
