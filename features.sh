#!/bin/bash
# Builds featdump against /repo's working tree, once per set of optional features.
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
build() {
  CARGO_TARGET_DIR="$PWD/target/feat-$1" cargo build --release --offline --manifest-path featdump/Cargo.toml --features "$2"
}
build none ""
build serde serde
build serde-edits serde-edits
