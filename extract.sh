#!/bin/bash
# Build the driver (if needed) and dump the facts of /repo's current tree to $1.
set -e
V=$(cd "$(dirname "$0")" && pwd)
REPO=${MX_REPO:-/repo}
OUT=$(realpath -m "$1")
B=${MX_BUILD:-$V/build}
mkdir -p "$B"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_BUILD_RUSTFLAGS || true
SYS=$(rustc --print sysroot)
export LD_LIBRARY_PATH="$SYS/lib"
(cd "$V/driver" && CARGO_TARGET_DIR="$B/driver" cargo build --offline -q)
rm -rf "$B/target/debug/build/mx-message" "$B"/target/debug/.fingerprint/mx-message-*
rm -f "$OUT"
cd "$REPO"
MXFACTS_OUT="$OUT" RUSTC_WORKSPACE_WRAPPER="$B/driver/debug/mxfacts" CARGO_TARGET_DIR="$B/target" \
  cargo check --lib --offline -q
test -s "$OUT"
