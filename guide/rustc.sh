#!/bin/sh
# RUSTC_WRAPPER: coverage instrumentation of the crate under test and of the
# operations that are monomorphised in the probe, and of nothing else.
rustc=$1
shift
case " $* " in
*" --crate-name justjson "* | *" --crate-name probe "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-trace-compares
    ;;
esac
exec "$rustc" "$@"
