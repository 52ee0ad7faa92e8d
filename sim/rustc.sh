#!/bin/bash
# Cargo's way to rustc: the code under test (the library and the main program) is compiled with a call to the
# simulator on every edge of its control flow. With TSIM_FINE=1, there are calls at all accesses to memory, too, for
# switching threads there.
rustc=$1
shift
fine=
[ "$TSIM_FINE" = 1 ] && fine="-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
case " $* " in
*" --crate-name tiny_spice "* | *" --crate-name cli "*)
    exec "$rustc" "$@" -Clto=off -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard $fine
    ;;
esac
exec "$rustc" "$@"
