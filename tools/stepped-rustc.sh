#!/bin/bash
# RUSTC_WRAPPER of the "stepped" build: the crate under test calls back at every basic block
# (the compiler's stock coverage instrumentation), which makes each one a preemption point.
case " $* " in
  *" --crate-name onion_pir "*) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc ;;
  *) exec "$@" ;;
esac
