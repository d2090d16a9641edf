#!/bin/bash
# RUSTC_WRAPPER: gives every control-flow edge of the code under test (and of
# the generic code the workloads instantiate from it) a call into the
# simulator, so that the simulator can preempt there. No source is changed.
p=; n=
for a in "$@"; do if [ "$p" = "--crate-name" ]; then n="$a"; fi; p="$a"; done
case "$n" in
 fleece|fleecesim|rangemap|folklore|crossbeam_utils|fixedstr|lazy_static)
   exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc ;;
esac
exec "$@"
