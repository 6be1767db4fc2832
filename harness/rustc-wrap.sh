#!/bin/sh
# cargo calls this as: rustc-wrap.sh <rustc> <args>. The library and the adapter crate (which
# instantiates the library's generics) are built with SanitizerCoverage callbacks, see probe/.
for a in "$@"; do
    case "$prev$a" in
        --crate-namehash_roll | --crate-nameadapt)
            exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
                -C llvm-args=-sanitizer-coverage-trace-pc-guard \
                -C llvm-args=-sanitizer-coverage-trace-compares
            ;;
    esac
    prev=$a
done
exec "$@"
