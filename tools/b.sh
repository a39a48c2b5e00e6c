#!/bin/bash
cd /verif/harness && CARGO_TARGET_DIR=/verif/target RUSTFLAGS=-Awarnings cargo build --release --offline 2>&1 | grep -E '^(error|warning: unused)|^ *-->' | head -30
