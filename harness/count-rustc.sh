#!/bin/sh
# Compiles the library under test, the core libraries it uses, and the harness
# into which its generic code is instantiated, so that every edge taken calls a
# counter.
rustc="$1"
shift
case " $* " in
*" --crate-name proc_macro2 "* | *" --crate-name vh "* | *" --crate-name core "* | *" --crate-name alloc "*)
    exec "$rustc" "$@" -Ccodegen-units=1 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard
    ;;
esac
exec "$rustc" "$@"
