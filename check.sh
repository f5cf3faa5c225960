#!/bin/bash
# check.sh <property> [args...]: build the simulator for the property from /repo's working tree, run it.
set -u
cd "$(dirname "$0")"
export VERIF_ROOT="$PWD"
export RUSTUP_TOOLCHAIN=1.85.0-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
id="$1"; shift
case "$id" in
  T*) bin=clocksim ;;
  A*) bin=apisim ;;
  E*) bin=ecsim ;;
  S*) bin=serdesim ;;
  G*) bin=gensim ;;
  C*) bin=beaconsim ;;
  K*) bin=blssim ;;
  *) echo "unknown property $id"; exit 2 ;;
esac
log="$(mktemp)"
if ! cargo build --offline -q -p "$bin" >"$log" 2>&1; then
  grep -E '^error' -A8 "$log" | head -60
  echo "HARNESS ERROR: $bin does not build against the current tree"
  rm -f "$log"; exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/$bin" --property "$id" "$@"
