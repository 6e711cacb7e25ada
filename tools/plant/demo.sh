#!/usr/bin/env bash
# Builds a small program against the rewards program in the current directory
# and runs it. Exit 0: the property holds in this scenario.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
publish = false
[workspace]
[dependencies]
mplx-rewards = { path = "$PWD/programs/rewards" }
@CLIENT@solana-program = "=1.18.19"
spl-token = { version = "=4.0.0", features = ["no-entrypoint"] }
[features]
clients = []
[profile.dev]
debug = 0
incremental = false
T
unset RUSTUP_TOOLCHAIN CARGO_BUILD_TARGET RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$tmp/target}"
cd "$tmp"
cargo build -q --offline 2> "$tmp/log" || { tail -n 40 "$tmp/log"; exit 2; }
"$CARGO_TARGET_DIR/debug/demo"
