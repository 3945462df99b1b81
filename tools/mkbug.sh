#!/bin/bash
# mkbug.sh ID: takes the diff of the scratch worktree /tmp/bw as seeded/ID/patch.diff, copies the demo parts it uses, resets the worktree.
set -e
V=/verif; D=$V/seeded/$1; mkdir -p "$D"
git -C /tmp/bw diff > "$D/patch.diff"; git -C /tmp/bw checkout -q -- .
[ -s "$D/patch.diff" ] || { echo empty; exit 1; }
cp $V/tools/demo/process.hpp $V/tools/demo/common.sh "$D/"
grep -q app.cpp "$D/demo.sh" && cp $V/tools/demo/app.cpp "$D/"
echo "$1: $(grep -c '^[-+][^-+]' $D/patch.diff) lines"
