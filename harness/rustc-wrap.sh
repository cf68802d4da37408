#!/bin/bash
# RUSTC_WRAPPER: adds the hook cfg to the crate under test, and coverage + comparison
# instrumentation to the crate under test and to the property binaries (generic code of the crate
# under test is compiled into those). The engine, which implements the callbacks, stays clean.
rustc=$1; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case "$name" in
  ''|___|engine|build_script_build|harness|highopt) exec "$rustc" "$@" ;;
esac
SAN=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3
     -Cllvm-args=-sanitizer-coverage-inline-8bit-counters
     -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-sanitizer-coverage-prune-blocks=0)
exec "$rustc" "$@" --cfg verif_hooks "${SAN[@]}"
