#!/bin/bash
# Builds demo.rs against the tree in /repo (offline) and runs it: exit 0 when the property held in its scenario.
D="$(cd "$(dirname "$0")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export CARGO_TARGET_DIR=/repo/target
W=/repo/target/demo-ws
mkdir -p $W
export HERE=$W/crate
mkdir -p $HERE
cp "$D"/*.rs $HERE/
cp "$D/demo.toml" $HERE/Cargo.toml
python3 "$D/mkws.py" $W $HERE || exit 3
[ -f $W/Cargo.lock ] || cp "$D/Cargo.lock.seed" $W/Cargo.lock || exit 3
cd $W
if ! timeout 280 cargo test --workspace --no-run --offline --bins --test demo --features "$FEATURES" >$W/cargo.log 2>&1; then
  tail -40 $W/cargo.log; exit 3
fi
EXE=$(grep -o '(/repo/target/debug/deps/demo-[0-9a-f]*)\|(target/debug/deps/demo-[0-9a-f]*)\|(.*/demo-[0-9a-f]*)' $W/cargo.log | tr -d '()' | tail -1)
timeout 100 "$EXE"
