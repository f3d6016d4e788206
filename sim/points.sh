#!/bin/bash
# RUSTC_WRAPPER of the build for C02: the library's compiled code calls back at
# every control-flow edge, load and store (SanitizerCoverage); nothing else changes.
for a in "$@"; do [ "$p" = --crate-name ] && n=$a; p=$a; done
[ "$n" = mqttbytes ] || exec "$@"
export RUSTC_BOOTSTRAP=1
exec "$@" -Zcross-crate-inline-threshold=never -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
    -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-loads \
    -C llvm-args=-sanitizer-coverage-trace-stores
