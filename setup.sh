#!/bin/bash
# Nothing has to be prepared: every check builds the driver from /repo's tree. This only tries the tools.
set -e
cd "$(dirname "$0")"
ls -d /repo/target/debug/deps build/tgt 2>&1 || true
python3 tools/gen.py
time tools/build.sh
