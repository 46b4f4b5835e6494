#!/bin/bash
# RUSTC_WRAPPER: compiles the library under test and the driver crate with LLVM's
# sanitizer-coverage pass, so that the simulator gets a callback at every basic-block
# edge, load and store. Everything else is compiled as cargo asks.
rc="$1"; shift
prev=""; cn=""; ct=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && cn="$a"
  prev="$a"
done
case "$cn" in
  ronda|ronda_driver)
    exec "$rc" "$@" -Awarnings --cfg libronda_sim \
      -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rc" "$@" ;;
esac
