#!/bin/bash
# build.sh [cli|clitk|threads|all]: builds the shim, the simulator and the program under test
# (from /repo's current working tree) into /verif/build. Quiet unless something fails (exit 2).
V=$(cd "$(dirname "$0")" && pwd)
what=${1:-all}
. /opt/vp/env.sh 2>/dev/null
cd "$V" || exit 2
R=${VERIF_REPO:-/repo}
B=$V/build
mkdir -p "$B"
exec 9>"$B/lock"; flock 9
[ -f "$R/Cargo.lock" ] || cp /opt/vp/Cargo.lock "$R/Cargo.lock"
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
export CARGO_INCREMENTAL=0 CARGO_PROFILE_RELEASE_INCREMENTAL=false
export CARGO_PROFILE_RELEASE_LTO=false CARGO_PROFILE_RELEASE_OPT_LEVEL=1
export CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_DEBUG=0

run() { # run LOG CMD...
  local log=$1; shift
  if ! "$@" >"$B/$log" 2>&1; then
    echo "build failed: $*" >&2; grep -E '^(error|warning: unused)|-->' "$B/$log" | head -20 >&2; tail -5 "$B/$log" >&2
    exit 2
  fi
}
# what the tree says, not when its files were written, decides whether it is compiled again
sum=$(cd "$R" && { git ls-files -z --cached --others --exclude-standard 2>/dev/null | sort -zu | xargs -0 sha1sum 2>/dev/null; } | sha1sum | cut -c1-40)
fresh() { # fresh TARGETDIR
  if [ "$(cat "$1/tree.sum" 2>/dev/null)" != "$sum" ]; then
    for d in "$1"/release/.fingerprint/vimwiki*; do [ -d "$d" ] && rm -r "$d"; done
    rm -f "$1/tree.sum"
  fi
}
tk=
if [ "$what" = clitk ] || [ "$what" = all ]; then tk=1; fi
if [ "$what" = cli ] || [ "$what" = clitk ] || [ "$what" = all ]; then
  if [ ! -f "$B/shim.so" ] || [ shim/shim.c -nt "$B/shim.so" ] || [ shim/ops.h -nt "$B/shim.so" ]; then
    run shim.log gcc -O2 -fno-delete-null-pointer-checks -fPIC -shared -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-builtin -o "$B/shim.so.new" shim/shim.c -lpthread
    mv "$B/shim.so.new" "$B/shim.so"
  fi
  export CARGO_TARGET_DIR=$B/sim
  ( CARGO_PROFILE_RELEASE_OPT_LEVEL=2 run sim.log cargo build --release --offline --locked -q --manifest-path sim/Cargo.toml ) & p1=$!
  mkdir -p "$B/cli"; fresh "$B/cli"
  if [ -n "$tk" ]; then
    # the same program with timing statistics
    # (a tree in which only this feature does not compile is decided without it)
    if CARGO_TARGET_DIR=$B/cli cargo build --release --offline -q --features timekeeper --manifest-path "$R/vimwiki-cli/Cargo.toml" > "$B/clitk.log" 2>&1; then
      cp "$B/cli/release/vimwiki" "$B/cli/release/vimwiki.tk.new" && mv "$B/cli/release/vimwiki.tk.new" "$B/cli/release/vimwiki.tk"
    else
      echo "the feature timekeeper does not build" >&2; rm -f "$B/cli/release/vimwiki.tk"
    fi
  fi
  CARGO_TARGET_DIR=$B/cli run cli.log cargo build --release --offline -q -p vimwiki-cli --manifest-path "$R/Cargo.toml"
  echo "$sum" > "$B/cli/tree.sum"
  wait $p1 || exit 2
fi
if [ "$what" = threads ] || [ "$what" = all ]; then
  k=$(cat tsim/rt.c tsim/rustc-wrap.sh tsim/src/* sim/src/gen.rs sim/src/rng.rs tsim/Cargo.toml | sha1sum | cut -c1-40)
  if [ "$(cat "$B/rt.sum" 2>/dev/null)" != "$k" ] || [ ! -f "$B/rt.o" ]; then
    run rt.log gcc -O2 -c -o "$B/rt.o" tsim/rt.c
    for d in "$B"/tsim/release/.fingerprint/tsim-*; do [ -d "$d" ] && rm -r "$d"; done
  fi
  mkdir -p "$B/tsim"; fresh "$B/tsim"
  (
    unset CARGO_PROFILE_RELEASE_OPT_LEVEL CARGO_PROFILE_RELEASE_LTO CARGO_PROFILE_RELEASE_CODEGEN_UNITS CARGO_PROFILE_RELEASE_DEBUG
    export CARGO_TARGET_DIR=$B/tsim RUSTC_WRAPPER=$V/tsim/rustc-wrap.sh TSIM_RT=$B/rt.o
    run tsim.log cargo build --release --offline --locked -q --manifest-path tsim/Cargo.toml
  ) || exit 2
  echo "$sum" > "$B/tsim/tree.sum"; echo "$k" > "$B/rt.sum"
fi
exit 0
