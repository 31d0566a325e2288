#!/bin/sh
# Compiles the library under test, and only it, with coverage counters.
rustc="$1"
shift
case " $* " in
*" --crate-name proc_macro2 "*)
    exec "$rustc" "$@" -Ccodegen-units=1 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares
    ;;
esac
exec "$rustc" "$@"
