#!/bin/bash
# The Prometheus exporter lies outside /repo's workspace and uses a released SDK, so its harness is a workspace of its own.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS="--cap-lints=warn -Awarnings" CARGO_TARGET_DIR=$V/build/target-prom
unset RUSTC_WORKSPACE_WRAPPER CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTC_WRAPPER
mkdir -p "$V/build"
exec 9>"$V/build/lock.prom"; flock 9
"$V/bin/fresh.sh" "$V/build/target-prom" "$V/prom" >&2
cd "$V/prom"
cargo build --offline >&2
echo "$V/build/target-prom/debug/prom"
