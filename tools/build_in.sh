#!/bin/bash
# Builds the driver of the input crates (crate vin, /verif/harness_in) against /repo's current working tree.
# Prints the path of the driver. Third-party dependencies come from /repo/target when it is there.
set -e
V=/verif
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$V/build/tgt
export RUSTC_WORKSPACE_WRAPPER=$V/tools/rustc-wrap
mkdir -p $V/build/tgt/debug
exec 9>$V/build/lock
flock 9
python3 $V/tools/mkws.py inputs
if [ ! -f $V/build/ws_in/Cargo.lock ]; then
  cp $V/harness/Cargo.lock.seed $V/build/ws_in/Cargo.lock
fi
# Third-party artefacts come from /repo/target (hard links where possible, else copies); once, all or nothing.
if [ ! -f $V/build/tgt/seeded ]; then
  if [ -d /repo/target/debug/deps ]; then
    python3 $V/tools/seed.py /repo/target/debug $V/build/tgt/debug
  fi
  touch $V/build/tgt/seeded
fi
# Always rebuild the project's own crates from the current tree, never trust time stamps.
if [ "$VH_INCREMENTAL" != 1 ]; then
  find $V/build/tgt/debug/.fingerprint -maxdepth 1 \( -name 'lightyear*' -o -name 'vin-*' \) -exec rm -rf {} + 2>/dev/null || true
  find $V/build/tgt/debug/deps -maxdepth 1 \( -name '*lightyear*' -o -name 'vin-*' \) -exec rm -rf {} + 2>/dev/null || true
fi
cd $V/build/ws_in
if ! cargo test --workspace --no-run --offline --bins --test vin --features "$FEATURES" >$V/build/cargo_in.log 2>&1; then
  tail -60 $V/build/cargo_in.log >&2
  exit 2
fi
sed -n 's/.*Executable.*harness_in\/src\/main.rs (\(.*\))/\1/p; s/.*Executable.*src\/main.rs (\(.*vin-[0-9a-f]*\))/\1/p' $V/build/cargo_in.log | grep '/vin-' | tail -1
