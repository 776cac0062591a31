#!/bin/bash
# usage: check.sh ID [quick|thorough]   builds the harness from /repo's working tree and decides one property
set -u
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
log="$(mktemp /tmp/vbuild.XXXXXX)"
if ! cargo build --release --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
  tail -40 "$log" >&2; rm -f "$log"
  echo "check $id: the harness does not build against this tree" >&2
  exit 2
fi
if [ "$id" = C21 ] && ! bash ./features.sh >"$log" 2>&1; then
  # with all features it builds
  tail -40 "$log" >&2
  mkdir -p replays; mv "$log" replays/C21-build.log
  echo "the library does not build with some set of its features"
  echo "VIOLATION property=C21 replay=$PWD/replays/C21-build.log"
  exit 1
fi
rm -f "$log"
exec ./target/release/harness check "$id" --tier "$tier"
