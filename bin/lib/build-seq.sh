#!/bin/bash
# build-seq.sh <package> [binary] [cargo options]: builds one enumeration harness from /repo's current working tree. Prints the binary's path.
set -e
V=$(cd "$(dirname "$0")/../.." && pwd); P=$1; B=${2:-$1}
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS="--cap-lints=warn -Awarnings" CARGO_TARGET_DIR=$V/build/target-seq
unset RUSTC_WORKSPACE_WRAPPER CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTC_WRAPPER
mkdir -p "$V/build"
exec 9>"$V/build/lock.seq"; flock 9
"$V/bin/fresh.sh" "$V/build/target-seq" "$V/seq" >&2
cd "$V/seq"
cargo build --offline -p "$P" --bin "$B" "${@:3}" >&2
echo "$V/build/target-seq/debug/$B"
