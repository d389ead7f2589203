#!/bin/bash
# Builds main.rs against /repo's working tree in a scratch folder and runs it: 0 if the property held.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
cp -r "$D"/. "$W"/ || exit 99
export CARGO_TARGET_DIR=$W/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cd "$W" || exit 99
cargo build --offline --quiet 2>"$W/build.log" || { cat "$W/build.log" >&2; rm -r -f "$W"; exit 98; }
timeout 120 "$W/target/debug/demo"
R=$?
rm -r -f "$W"
exit $R
