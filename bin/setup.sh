#!/bin/bash
# Builds every harness once from the committed files (each check rebuilds what it needs anyway).
V=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_TARGET_DIR=$V/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS
for c in "$V"/sim/sim-*/; do
  for p in release ship; do
    cargo build --offline --locked --profile $p --quiet --manifest-path "$c/Cargo.toml" || echo "setup: $c does not build" >&2
  done
done
mkdir -p "$V/evidence" "$V/replays"
exit 0
