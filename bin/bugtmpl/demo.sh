#!/bin/bash
# Builds main.rs against the repository in the current directory and runs it: 0 = the property holds.
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_INCREMENTAL
export CARGO_TARGET_DIR="$T/target" RUSTFLAGS="--cap-lints=allow" CARGO_PROFILE_DEV_DEBUG=0
cp "$D/main.rs" "$D/Cargo.lock" "$T/"
sed "s#@REPO@#$R#g" "$D/Cargo.toml.in" > "$T/Cargo.toml"
cd "$T"
cargo build --offline -q
timeout 120 "$T/target/debug/demo"
