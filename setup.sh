#!/bin/bash
# Builds every harness once, offline, against /repo's working tree.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
rc=0
( cd "$root/harness/cin" && CARGO_TARGET_DIR="$root/target" cargo build --release --offline ) || rc=1
( cd "$root/harness/cin" && CARGO_TARGET_DIR="$root/target/instr" cargo build --release --offline --features instr ) || rc=1
( cd "$root/harness/hot" && CARGO_TARGET_DIR="$root/target/hot" cargo build --release --offline ) || rc=1
( cd "$root/harness/hot" && CARGO_TARGET_DIR="$root/target/hot-server" cargo build --release --offline --features server ) || rc=1
( cd "$root/harness/hot" && CARGO_TARGET_DIR="$root/target/hot-wasm" cargo build --release --offline --features wasm ) || rc=1
( cd "$root/harness/hot" && CARGO_TARGET_DIR="$root/target/hot-live" cargo build --release --offline --features live ) || rc=1
exit $rc
