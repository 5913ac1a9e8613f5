#!/bin/sh
# RUSTC_WRAPPER of the simulator's build: calls back at every branch of the library (and nothing else), so
# that the simulated scheduler can switch threads there.  The program under test is built without it.
case " $* " in
*" --crate-name markdown_fmt "*)
  exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$@"
