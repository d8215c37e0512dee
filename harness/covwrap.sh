#!/bin/sh
# RUSTC_WRAPPER: instruments the crate under test, and nothing else, with edge counters and
# comparison tracing; the worker supplies the callbacks (src/cov.rs).
rustc=$1
shift
name= prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
done
if [ "$name" = matrixmultiply ]; then
    exec "$rustc" "$@" ${MM_COV_FLAGS} -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
        -Cllvm-args=-sanitizer-coverage-trace-compares
fi
exec "$rustc" "$@"
