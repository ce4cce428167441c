#!/bin/bash
# mkseed.sh ID: store the diff of /tmp/sr (a clone of /repo) as seeded/ID/patch.diff with the demo files copied, and reset the clone
set -e
V=$(cd $(dirname $0)/..; pwd); D=$V/seeded/$1; mkdir -p $D
git -C /tmp/sr diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty diff"; exit 1; }
cp $V/tools/demo/demo.h $V/tools/demo/run.inc $D/
git -C /tmp/sr checkout -q -- .
grep -c '^[-+][^-+]' $D/patch.diff
