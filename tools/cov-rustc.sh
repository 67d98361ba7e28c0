#!/bin/sh
# rustc for the crate under test and what it is built on: every edge, memory access and
# comparison reports itself.
case " $* " in
*" --crate-name blake2s_simd "*|*" --crate-name constant_time_eq "*|*" --crate-name arrayvec "*|*" --crate-name byteorder "*|*" --crate-name arrayref "*)
    # Nothing of them may be compiled into the harness instead.
    RUSTC_BOOTSTRAP=1 exec "$@" -Zcross-crate-inline-threshold=never -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
        -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-max-loads-per-memcmp=0 ;;
esac
exec "$@"
