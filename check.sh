#!/bin/bash
# usage: check.sh PROPERTY [--replay FILE]      (VERIF_SEED, VERIF_TIER from the environment)
# Builds the property's binary against /repo's working tree and runs it: first with overflow checks
# and debug assertions, then a part of the cases in a plain release build.
set -u
DIR=$(cd "$(dirname "$0")" && pwd)
ID=${1:?property id}; shift
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
export VERIF_DIR=$DIR VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
. "$DIR/env.sh"
cd "$DIR/harness" || exit 2
# P39: under AddressSanitizer, and under the Miri interpreter
asan() {
  export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$DIR/harness/target/asan RUSTFLAGS="-Zsanitizer=address -Awarnings"
  export CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16
  export CARGO_BUILD_TARGET=x86_64-unknown-linux-gnu VERIF_BUILD=asan
  export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0
}
ASAN=$DIR/harness/target/asan/x86_64-unknown-linux-gnu/release/p39
miri() {
  unset RUSTC_WRAPPER CARGO_BUILD_TARGET
  export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$DIR/harness/target/miri RUSTFLAGS="--cfg verif_hooks -Awarnings"
  export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"
  export ASAN_OPTIONS=detect_leaks=0
  export VERIF_BUILD=miri VERIF_LAUNCH="cargo miri run --offline --quiet --release --bin p39 --"
}
build() { # profile
  local log; log=$(mktemp)
  if ! cargo build --offline --quiet --profile "$1" --bin "$BIN" >"$log" 2>&1; then
    grep -A12 '^error' "$log" | head -60
    echo "ERROR: the harness does not build against /repo"
    rm -f "$log"; exit 2
  fi
  rm -f "$log"
}
launch() {
  local log; log=$(mktemp)
  if ! $VERIF_LAUNCH --nothing >"$log" 2>&1; then
    head -60 "$log"
    echo "ERROR: the harness does not run under Miri against /repo"
    rm -f "$log"; exit 2
  fi
  rm -f "$log"
}
if [ "$ID" = P39 ]; then
  if [ "${1:-}" = --replay ]; then
    (asan; build release) || exit 2
    if grep -q '"build": "miri"' "$2"; then miri; else asan; fi
    exec "$ASAN" "$@"
  fi
  (asan; build release && "$ASAN"); RC=$?
  [ $RC = 0 ] || exit $RC
  miri; launch
  exec "$ASAN"
fi
if [ "${1:-}" = --replay ]; then
  PROFILE=release
  grep -q '"build": "plain"' "$2" && PROFILE=plain
  build $PROFILE
  exec "$DIR/harness/target/$PROFILE/$BIN" "$@"
fi
build release
"$DIR/harness/target/release/$BIN"; RC=$?
# P31 and P34 compile their subjects in several builds themselves
case $ID in P31|P34) exit $RC ;; esac
[ $RC = 0 ] || exit $RC
build plain
VERIF_BUILD=plain VERIF_SCALE=${VERIF_SCALE:-4} exec "$DIR/harness/target/plain/$BIN"
