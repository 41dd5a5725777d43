#!/bin/bash
# compiles the library with callbacks at block edges, loads, stores and atomics
rustc=$1; shift
case " $* " in
  *" --crate-name vimwiki_core "*|*" --crate-name lazy_static "*|*" --crate-name vimwiki "*)
    exec "$rustc" "$@" "-Cpasses=function(tsan)" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *" --crate-name tsim "*) exec "$rustc" "$@" "-Clink-arg=$TSIM_RT" ;;
esac
exec "$rustc" "$@"
