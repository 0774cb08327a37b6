#!/bin/sh
# Compiler wrapper: the library under test (and only it) gets edge and comparison callbacks
# (harness/src/cov.rs) for the guided search.
rustc="$1"
shift
case " $* " in
*" --crate-name maybe_dns "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares
    ;;
esac
exec "$rustc" "$@"
