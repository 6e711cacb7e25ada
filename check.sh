#!/usr/bin/env bash
# check.sh <property id>: rebuild the harness against /repo's working tree and
# run one property's check (VERIF_SEED, VERIF_TIER in the environment).
cd "$(dirname "$0")" || exit 2
id=$1
feat=()
[[ $id = P17 || $id = P22 ]] && feat=(--features clients)
unset RUSTUP_TOOLCHAIN CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
log=$(mktemp)
if ! cargo build --manifest-path harness/Cargo.toml --release --offline -q "${feat[@]}" >"$log" 2>&1; then
  tail -n 60 "$log" >&2
  rm -f "$log"
  echo "the harness does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
exec target/release/vh check "$id"
