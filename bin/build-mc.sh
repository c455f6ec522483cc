#!/bin/bash
# Builds the model-checking harness from /repo's current working tree. Prints the binary's path.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS="--cap-lints=warn -Awarnings"
unset RUSTC_WORKSPACE_WRAPPER CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
B=$V/build; mkdir -p "$B"
exec 9>"$B/lock.mc"; flock 9
MH=$(cat "$V"/mcstd/*.rs "$V/bin/rustc-wrap" | sha256sum | cut -c1-16)
export MCSTD_DIR=$B/mcstd-$MH
if [ ! -f "$MCSTD_DIR/libmcstd.rlib" ]; then
  rm -rf "$B"/mcstd-* "$B/target-mc"; mkdir -p "$MCSTD_DIR"
  rustc --edition 2021 -O --cap-lints=allow --crate-type rlib --crate-name mcstd -o "$MCSTD_DIR/libmcstd.tmp.rlib" "$V/mcstd/lib.rs"
  mv "$MCSTD_DIR/libmcstd.tmp.rlib" "$MCSTD_DIR/libmcstd.rlib"
fi
export RUSTC_WRAPPER=$V/bin/rustc-wrap CARGO_TARGET_DIR=$B/target-mc
"$V/bin/fresh.sh" "$B/target-mc" "$V/mc" >&2
cd "$V/mc"
cargo build --offline >&2
echo "$B/target-mc/debug/mc"
