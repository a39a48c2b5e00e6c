#!/bin/bash
# builds the harness and the Python extension from /repo's working tree, offline
cd "$(dirname "$0")" || exit 2
here=$PWD
mkdir -p target pytarget evidence replays
( cd harness && CARGO_TARGET_DIR="$here/target" RUSTFLAGS=-Awarnings cargo build --release --offline ) || exit 2
PYO3_PYTHON=/opt/veriftools/pyvenv/bin/python3 CARGO_TARGET_DIR="$here/pytarget" RUSTFLAGS=-Awarnings \
  bash -c 'cd python && cargo build --release --offline -p polymers' || exit 2
