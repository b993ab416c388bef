#!/bin/bash
# Builds the harness once (the checks rebuild it from /repo themselves).
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$V/evidence" "$V/replays" "$V/target"
unset RUSTFLAGS
cd "$V/harness" && CARGO_TARGET_DIR="$V/target" cargo build --release --offline
