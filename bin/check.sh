#!/bin/bash
# check.sh <property> [quick|thorough]: build the harness from /repo's working tree and run one check.
# Exit 0: held on everything explored. 1: VIOLATION line printed. Anything else: the check itself failed.
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case $ID in
  V0*) C=sim-vec2d ;;
  P0*) C=sim-product ;;
  L0*) C=sim-log ;;
  W0*) C=sim-wasm ;;
  D0*|G0*) C=sim-full ;;
  E0*) C=sim-math ;;
  *) C=sim-parse ;;
esac
export CARGO_TARGET_DIR=$V/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS
mkdir -p "$V/evidence" "$V/replays"
LOG=$V/target.build.log.$$
build() { cargo build --offline --locked --quiet --manifest-path "$V/sim/$C/Cargo.toml" "$@" 2>>"$LOG"; }
FEATURES=
# The same harness without debug assertions and overflow checks: what users ship. A quarter of the runs.
SHIPLOG=$LOG.ship
cargo build --offline --locked --quiet --manifest-path "$V/sim/$C/Cargo.toml" --profile ship 2>"$SHIPLOG" &
SHIP=$!
if ! build --release; then
  # Without the bundled grammar tables the harness still has its own.
  case $C in
    sim-parse|sim-log) FEATURES=--no-default-features; build --release $FEATURES ;;
    *) false ;;
  esac || {
    wait $SHIP
    cat "$LOG" >&2; unlink "$LOG"; unlink "$SHIPLOG"
    echo "BUILD-ERROR property=$ID: the harness does not build against /repo" >&2
    exit 4
  }
  echo "note: built without gearley-default-grammar, which does not build" >&2
fi
wait $SHIP
OK=$?
[ -z "$FEATURES" ] || { build --profile ship $FEATURES; OK=$?; }
unlink "$LOG"; unlink "$SHIPLOG"
SHIPARG=
[ $OK = 0 ] && SHIPARG="--ship $V/target/ship/$C"
exec "$V/target/release/$C" check "$ID" $SHIPARG --seed "$SEED" --tier "$TIER" \
  --evidence "$V/evidence/$ID.json" --replays "$V/replays" --known "$V/known_findings.txt"
