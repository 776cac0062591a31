#!/bin/bash
# Builds the harness from the committed files, offline.
set -eu
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
cargo build --release --offline --manifest-path harness/Cargo.toml
bash ./features.sh
