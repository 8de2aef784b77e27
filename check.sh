#!/bin/bash
# check.sh PROPERTY [extra driver options]
# Builds the simulator from the working tree of /repo (if its sources changed since the last build) and runs the
# seeded search of one property.  Environment: VERIF_SEED, VERIF_TIER (quick|thorough).
# Exit: 0 property held, 1 violation (VIOLATION line printed), anything else: the check itself failed.
V=$(cd "$(dirname "$0")" && pwd)
P=${1:?}; shift
SEED=${VERIF_SEED:-1}; TIER=${VERIF_TIER:-quick}
case $P in
C06) W=tab;;
C12) W=thr;;
*) W=uni;;
esac
BIN=$("$V/build.sh" $W) || { echo "check.sh: the simulator could not be built" >&2; exit 5; }
mkdir -p "$V/evidence" "$V/replays"
grep -h "^KNOWN-FINDING: property=$P " "$V/known-findings.txt" 2>/dev/null
cd "$V" && exec "$BIN" --check "$P" --seed "$SEED" --tier "$TIER" --evidence "$V/evidence/$P.json" --replay-dir "$V/replays" "$@"
