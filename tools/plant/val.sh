#!/bin/bash
# val.sh [ids]: validates planted bugs: demo passes unchanged, fails patched, tests pass
. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/plant/wt/target CARGO_INCREMENTAL=1
cd /tmp/plant/wt || exit 1
git checkout -q --detach $(git -C /repo rev-parse HEAD); git checkout -q -- .
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
ids=${*:-$(ls /verif/seeded)}
cargo build --workspace --offline -q 2>/tmp/plant/b.log || { tail -20 /tmp/plant/b.log; exit 1; }
declare -A ok
for i in $ids; do timeout 300 bash /verif/seeded/$i/demo.sh > /tmp/plant/d.log 2>&1; rc=$?; ok[$i]=$rc; [ $rc = 0 ] || { echo "$i: demo fails on the unchanged tree: $rc"; tail -5 /tmp/plant/d.log; }; done
for i in $ids; do
  git apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  if cargo build --workspace --offline -q 2>/tmp/plant/b.log; then
    s=$(date +%s); timeout 300 bash /verif/seeded/$i/demo.sh > /tmp/plant/d.log 2>&1; rc=$?; e=$(( $(date +%s)-s ))
    cargo test --workspace --features amzn-smt-eager-arithmetic/varisat --no-fail-fast --offline > /tmp/plant/t.log 2>&1; t=$?
    echo "$i: unchanged ${ok[$i]} patched $rc (${e}s: $(tail -1 /tmp/plant/d.log | cut -c1-80)) tests $t warn $(grep -c warning /tmp/plant/b.log)"
  else echo "$i does not build"; grep -A8 '^error' /tmp/plant/b.log | head -20; fi
  git checkout -q -- .
done
