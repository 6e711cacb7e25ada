#!/usr/bin/env bash
# replay.sh <replay file>: run one saved case again, with its trace.
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
unset RUSTUP_TOOLCHAIN RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
cargo build --manifest-path harness/Cargo.toml --release --offline -q --features clients 2>/dev/null || exit 2
exec target/release/vh replay "$f"
