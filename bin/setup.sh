#!/bin/bash
# Builds the harness (offline) from the committed files and /repo's working tree.
set -e
cd "$(dirname "$0")/.."
mkdir -p .build .work evidence
export CARGO_NET_OFFLINE=true PYO3_PYTHON=/usr/bin/python3.12 CARGO_TARGET_DIR="$PWD/.build/target"
unset RUSTFLAGS
cargo build --offline --locked --manifest-path harness/Cargo.toml
