#!/bin/bash
# check.sh <PROPERTY> [--replay FILE]: builds the harness against /repo's
# working tree and runs the check of one property.
#   exit 0: held on everything explored; exit 1: VIOLATION line; else: error.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$root"
export CARGO_TARGET_DIR="$root/target"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
id="${1:?property id}"
case "$id" in
  C17)         crate=cin; args=(--features instr); CARGO_TARGET_DIR="$root/target/instr" ;;
  C*)          crate=cin; args=() ;;
  H*)          crate=hot; args=(); CARGO_TARGET_DIR="$root/target/hot" ;;
  S*)          crate=hot; args=(--features server); CARGO_TARGET_DIR="$root/target/hot-server" ;;
  W05)         crate=hot; args=(--features live); CARGO_TARGET_DIR="$root/target/hot-live" ;;
  W*)          crate=hot; args=(--features wasm); CARGO_TARGET_DIR="$root/target/hot-wasm" ;;
  *)           echo "unknown property $id" >&2; exit 2 ;;
esac
mkdir -p "$CARGO_TARGET_DIR" "$root/evidence" "$root/replays"
log="$CARGO_TARGET_DIR/build-$crate.log"
(
  flock 9
  cd "$root/harness/$crate" && cargo build --release --offline "${args[@]}" >"$log" 2>&1
) 9>"$CARGO_TARGET_DIR/.lock"
if [ $? -ne 0 ]; then
  echo "build of the harness against /repo failed:" >&2
  tail -40 "$log" >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/release/$crate" "$@"
