#!/bin/bash
# C02: builds the Python extension and the oracle from /repo's working tree, then runs check.py
cd "$(dirname "$0")" || exit 2
here=$PWD
root=$(dirname "$here")
mkdir -p "$root/target" "$root/pytarget"
log=$root/pytarget/build.$$.log
{ ( cd "$root/harness" && CARGO_TARGET_DIR="$root/target" RUSTFLAGS=-Awarnings cargo build --release --offline ) >"$log" 2>&1 &&
  PYO3_PYTHON=/opt/veriftools/pyvenv/bin/python3 CARGO_TARGET_DIR="$root/pytarget" RUSTFLAGS=-Awarnings \
    cargo build --release --offline -p polymers >>"$log" 2>&1; } || {
  tail -40 "$log" >&2
  echo "ERROR: the Python extension does not build against /repo" >&2
  exit 2
}
rm -f "$log"
mod=$(mktemp -d) || exit 2
trap 'rm -rf "$mod"' EXIT
cp "$root/pytarget/release/libpolymers.so" "$mod/polymers.so" || exit 2
VERIF_PYMOD=$mod PYTHONDONTWRITEBYTECODE=1 timeout "${VERIF_LIMIT:-5400}" python3-vt check.py "$@"
