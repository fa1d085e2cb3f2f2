#!/bin/sh
# Adds SanitizerCoverage to the crates under test when they are built for the target (not when they
# are built as dependencies of a procedural macro).
case " $* " in
*" --target "*)
    case " $* " in
    *" --crate-name oasis_cbor "* | *" --crate-name oasis_cbor_value "* | *" --crate-name zoo "* | *" --crate-name szoo "*)
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
            -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-sanitizer-coverage-pc-table
        ;;
    esac
    ;;
esac
exec "$@"
