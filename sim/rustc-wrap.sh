#!/bin/sh
# RUSTC_WRAPPER: compiles the crates under test with the simulator's preemption points (SanitizerCoverage:
# a callback at every basic block edge, load and store) and, if FPSIM_HOOKS=1, with the hooks of /repo.
rustc="$1"; shift
crate=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && crate="$a"
    prev="$a"
done
case "$crate" in
fast_paths | priority_queue | plain_search)
    set -- "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores \
        --cap-lints allow
    [ "$crate$FPSIM_HOOKS" = fast_paths1 ] && set -- "$@" --cfg fast_paths_sim
    ;;
esac
exec "$rustc" "$@"
