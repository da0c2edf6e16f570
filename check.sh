#!/bin/bash
# check.sh PROPERTY quick|thorough [extra harness arguments]
# Rebuilds what the property's harness needs from /repo's working tree and runs it.
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: a shrunk, replayable counterexample.
cd "$(dirname "$0")" || exit 2
. ./env.sh
prop=$1; tier=${2:-quick}; shift 2
harness=$(awk -v p="$prop" '$1 == p { print $2 }' harness/targets.txt)
[ -n "$harness" ] || { echo "no harness for $prop" >&2; exit 2; }
build_target "$harness" || { echo "build of $harness failed" >&2; exit 2; }
mkdir -p evidence replays
exec "$BUILD/$harness" --property "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" \
  --evidence "$PWD/evidence/$prop.json" --replay-dir "$PWD/replays" "$@"
