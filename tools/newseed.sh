#!/bin/bash
# tools/newseed.sh ID: takes the uncommitted change in /repo as a planted bug, copies the demo scaffold next to it.
set -e
S=/verif/seeded/$1; mkdir -p $S
git -C /repo diff > $S/patch.diff
cp /verif/tools/demo/{demo.sh,mkws.py,demo.toml,Cargo.lock.seed} $S/
