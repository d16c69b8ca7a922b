#!/bin/sh
# RUSTC_WRAPPER: compiles waterbear itself with coverage for AFL++, and the
# rest as usual.
name=
bin=
previous=
for a in "$@"; do
    case "$previous $a" in
        "--crate-name "*) name=$a;;
        "--crate-type bin") bin=1;;
    esac
    previous=$a
done
if [ "$name" = waterbear ]; then
    set -- "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard
    [ -n "$bin" ] && set -- "$@" -Clink-arg=/usr/lib/afl/afl-compiler-rt-64.o
fi
exec "$@"
