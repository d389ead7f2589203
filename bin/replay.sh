#!/bin/bash
# replay.sh <replay.json>: rebuild the harness and replay one recorded run exactly.
V=$(cd "$(dirname "$0")/.." && pwd)
F=$(realpath "$1")
ID=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$F")
case $ID in
  V0*) C=sim-vec2d ;;
  P0*) C=sim-product ;;
  L0*) C=sim-log ;;
  W0*) C=sim-wasm ;;
  D0*|G0*) C=sim-full ;;
  E0*) C=sim-math ;;
  *) C=sim-parse ;;
esac
export CARGO_TARGET_DIR=$V/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cargo build --offline --locked --release --quiet --manifest-path "$V/sim/$C/Cargo.toml" 2>"$V/target.build.log.$$" || { cat "$V/target.build.log.$$" >&2; unlink "$V/target.build.log.$$"; exit 4; }
cargo build --offline --locked --profile ship --quiet --manifest-path "$V/sim/$C/Cargo.toml" 2>/dev/null || exit 4
unlink "$V/target.build.log.$$"
exec "$V/target/release/$C" replay "$F" --ship "$V/target/ship/$C"
