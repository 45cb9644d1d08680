#!/bin/bash
# RUSTC_WRAPPER: compiles the crate `typelalr` with a callback on every edge, load and store, and the guard cfg.
rustc="$1"
shift
case " $* " in
*" --crate-name typelalr "*)
  exec "$rustc" "$@" --cfg typelalr_sim -Ccodegen-units=1 -Cpasses=sancov-module \
    -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
    -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$rustc" "$@"
