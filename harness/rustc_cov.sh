#!/bin/bash
# rustc wrapper of the "guided" flavour: coverage counters and comparison hooks
# in the library only.
args=" $* "
case "$args" in
*" --crate-name wavefront_obj "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
        -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 ;;
*" --crate-name mon "*) exec "$@" --cfg guided ;;
*) exec "$@" ;;
esac
