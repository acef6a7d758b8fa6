#!/bin/bash
# Same seeds under different worker counts and hash seeds must give the same run digests.  usage: determinism.sh C01 ...
D=$(cd "$(dirname "$0")/.." && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
rc=0
for p in "$@"; do
  VBT_SIM_SCALE=${SCALE:-0.1} VBT_SIM_WORKERS=8 VBT_SIM_HASHSEED=0 VBT_SIM_LOGS="$T/a" "$D/check" "$p" quick > /dev/null
  VBT_SIM_SCALE=${SCALE:-0.1} VBT_SIM_WORKERS=3 VBT_SIM_HASHSEED=77 VBT_SIM_LOGS="$T/b" "$D/check" "$p" quick > /dev/null
  if diff -rq "$T/a" "$T/b" > "$T/d"; then echo "$p deterministic"; else echo "$p DIFFERS"; head -3 "$T/d"; rc=1; fi
  rm -rf "$T/a" "$T/b"
done
exit $rc
