#!/bin/bash
# check.sh <property>: builds the simulator from /repo's working tree and searches for a violation.
# VERIF_SEED and VERIF_TIER (quick|thorough) select the seeds and the budget.
cd "$(dirname "$0")" || exit 3
P=${1:?usage: check.sh <property>}; shift
BIN=$(python3 tools/build.py | tail -1)
if [ ! -x "$BIN" ]; then echo "check $P: the simulator could not be built from /repo" >&2; exit 3; fi
exec "$BIN" --property "$P" --seed "${VERIF_SEED:-1}" --tier "${VERIF_TIER:-quick}" --vdir "$PWD" "$@"
