#!/bin/bash
# rustc wrapper of the "cov" build: basic blocks of goban call back into the simulator (src/conc.rs).
rustc="$1"; shift
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = "goban" ]; then
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C codegen-units=1
  fi
  prev="$a"
done
exec "$rustc" "$@"
