#!/bin/bash
# matrix.sh OUT [ID...]: runs the quick check of its own property (ALL=1: of every property) against each planted change,
# in a scratch clone of /repo.
OUT=$1; shift; cd "$(dirname "$0")/.." || exit 2
IDS="$@"; [ -z "$IDS" ] && IDS=$(ls seeded)
T=$(mktemp -d /tmp/matrix.XXXX); trap 'rm -rf "$T"' EXIT
for id in $IDS; do
  rm -rf "$T/x"; git clone -q /repo "$T/x"; git -C "$T/x" apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply" >> "$OUT"; continue; }
  B=$(SIM_REPO=$T/x SIM_BUILD=$T/b python3 tools/build.py | tail -1)
  P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
  [ -n "$ALL" ] && P="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26"
  r="$id:"
  mkdir -p "$T/v"; cp known_findings.txt "$T/v/"
  for p in $P; do
    timeout 900 "$B" --property $p --seed ${VERIF_SEED:-1} --tier quick --vdir "$T/v" > "$T/o" 2>&1; rc=$?
    [ $rc = 1 ] && r="$r $p($(grep -oE 'found by seed [0-9]+' "$T/o" | head -1 | grep -oE '[0-9]+$'))"
    [ -z "$ALL" ] && [ $rc != 1 ] && r="$r MISSED rc=$rc"
  done
  echo "$r" >> "$OUT"
done
