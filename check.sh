#!/bin/bash
# ./check.sh C01 [--thorough] [--seed N] [--verbose] ...   run one property's check against /repo's working tree
# ./check.sh --replay FILE                                 run one recorded counterexample again
# exit 0: held; exit 1: violated (VIOLATION line printed); anything else: the check could not run
cd "$(dirname "$0")" || exit 2
here=$PWD
build() {
  mkdir -p target
  log=target/build.$$.log
  ( cd harness && CARGO_TARGET_DIR="$here/target" RUSTFLAGS=-Awarnings cargo build --release --offline ) >"$log" 2>&1 || {
    tail -40 "$log" >&2
    echo "ERROR: the harness does not build against /repo" >&2
    exit 2
  }
  rm -f "$here/$log"
}
args=("$@")
[ "$VERIF_TIER" = thorough ] && [ "$1" != --replay ] && args+=(--thorough)
if [ "$1" = --replay ]; then
  if grep -q '"property": *"C02"' "$2"; then exec ./python/check.sh --replay "$2"; fi
  build
  exec target/release/harness replay "$2"
fi
if [ "$1" = C02 ]; then exec ./python/check.sh "${args[@]:1}"; fi
build
exec target/release/harness run "${args[@]}"
