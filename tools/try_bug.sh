#!/bin/bash
# try_bug.sh ID...: builds, tests and demonstrates each planted change in /repo, and undoes it.
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  D=/verif/seeded/$id; res="$id:"
  T=$(mktemp -d /tmp/seed.XXXX); cp "$D"/* $T/; rm -f $T/patch.diff $T/meta.json
  git apply $D/patch.diff || { echo "$res patch does not apply"; continue; }
  t=$(bash /verif/tools/run_repo_tests.sh 2>/dev/null | head -1); res="$res [$t]"
  timeout 300 bash $T/demo.sh > /tmp/demo_bad.log 2>&1; r=$?; res="$res with=$r ($(grep demo: /tmp/demo_bad.log | tail -1))"
  git checkout -q -- .
  bash /opt/vp/build.sh > /dev/null 2>&1
  timeout 300 bash $T/demo.sh > /tmp/demo_ok.log 2>&1; r=$?; res="$res without=$r $(tail -1 /tmp/demo_ok.log | cut -c1-150)"
  rm -rf "$T"
  echo "$res"
done
