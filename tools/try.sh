#!/bin/bash
# tools/try.sh <seeded id>...: apply each planted bug to a scratch copy and run its property's check against it
for ID in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
  git -C /tmp/sr checkout -q -- . && git -C /tmp/sr apply /verif/seeded/$ID/patch.diff
  echo "== $ID ($P)"; (cd /verif; VP_REPO=/tmp/sr timeout 900 ./check.py $P 2>&1 | cut -c1-220 | tail -${N:-6}; echo "rc=${PIPESTATUS[0]}")
  git -C /tmp/sr checkout -q -- .
done
