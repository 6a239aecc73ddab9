#!/bin/bash
# Build the framework from the committed files, offline.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
export CARGO_NET_OFFLINE=true
(cd extractor && cargo build --release --offline --target-dir ../build/vx) || exit 1
(cd native && RUSTFLAGS="-Awarnings" cargo build --offline --target-dir ../build/native) || exit 1
