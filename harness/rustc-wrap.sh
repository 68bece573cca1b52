#!/bin/sh
# RUSTC_WRAPPER: instruments the library under test (and the thin crate that instantiates its generic
# code) with basic-block and memory-access callbacks, which are the simulator's preemption points. Nothing else is touched.
case " $* " in
  *" --crate-name auto_palette "*|*" --crate-name subject "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Cembed-bitcode=no -Ccodegen-units=1 ;;
esac
exec "$@"
