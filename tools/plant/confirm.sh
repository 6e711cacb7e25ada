#!/usr/bin/env bash
# confirm.sh <id..>: in a scratch copy, confirm that each planted bug compiles, passes the stable
# tests, that its demonstration tells it apart, and run all checks on it. Results in
# /tmp/pl/results. NODEMO=1: only the checks; NOCHECK=1: none; NOREG=1: without the saved inputs;
# PROPS="P01 .." or PROPS=own: only these.
mkdir -p /tmp/pl/verif /tmp/pl/results
[ -d /tmp/pl/repo ] || cp -a /repo /tmp/pl/repo
git -C /tmp/pl/repo fetch -q /repo HEAD && git -C /tmp/pl/repo checkout -q -f FETCH_HEAD
rm -rf /tmp/pl/verif/harness /tmp/pl/verif/regress; cp -a /verif/harness /tmp/pl/verif/; mkdir -p /tmp/pl/verif/regress
[ -n "$NOREG" ] || cp -a /verif/regress /tmp/pl/verif/
. /opt/vp/env.sh
export DEMO_TARGET=/tmp/pl/demo-target
for id in "$@"; do
  s=/verif/seeded/$id; r=/tmp/pl/results/$id; : > "$r"
  cd /tmp/pl/repo || exit 1
  git checkout -q -f . && git clean -fdq -e target
  own=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  [ -n "$NODEMO" ] || { bash "$s/demo.sh" > /tmp/pl/out 2>&1; echo "demo clean: $? $(tail -n 1 /tmp/pl/out)" >> "$r"; }
  if ! git apply "$s/patch.diff"; then echo "NO APPLY" >> "$r"; cat "$r"; continue; fi
  [ -n "$NODEMO" ] || {
  bash "$s/demo.sh" > /tmp/pl/out 2>&1; echo "demo bug: $? $(tail -n 1 /tmp/pl/out)" >> "$r"
  CARGO_TARGET_DIR=/tmp/pl/test-target cargo test --workspace --features rewards/test-sbf --lib --bins --test create --no-fail-fast --offline --locked > /tmp/pl/out 2>&1
  echo "tests: $? $(grep -c ' ok$' /tmp/pl/out) ok" >> "$r"
  }
  if [ -z "$NOCHECK" ]; then
    (cd /tmp/pl/verif/harness && env -u RUSTUP_TOOLCHAIN cargo build -q --release --offline --features clients --target-dir /tmp/pl/target) > /tmp/pl/out 2>&1 || { echo "HARNESS DOES NOT BUILD" >> "$r"; tail -5 /tmp/pl/out; }
    props=${PROPS:-P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P23}
    [ "$PROPS" = own ] && props=$own
    for p in $props; do
      VH_ROOT=/tmp/pl/verif VH_NOSHRINK=1 timeout 600 /tmp/pl/target/release/vh check $p > /tmp/pl/out 2>&1; c=$?
      [ $c = 0 ] || echo "$p exit $c: $(grep -v proptest /tmp/pl/out | sed -n '1p;2p' | cut -c1-250 | paste -sd' ')" >> "$r"
    done
  fi
  echo "== $id ($(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])"))"; cat "$r"
done
cd /tmp/pl/repo && git checkout -q -f .
