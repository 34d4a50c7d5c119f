#!/bin/bash
# catch.sh ID... : runs the registered check of each planted change against a patched scratch copy
for id in "$@"; do
  D=$(mktemp -d /tmp/catch-XXXXXX); cp -a /repo $D/r; git -C $D/r apply /verif/seeded/$id/patch.diff || continue
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  for c in ${CHECKS:-$p}; do
  (cd $(dirname "$0")/.. ; DST_REPO=$D/r ./check $c --workers ${W:-8} > $D/log 2>&1; echo "$id $c exit=$? $(grep -E '^seed|VIOLATION|held' $D/log | head -2 | cut -c1-220 | tr '\n' ' ')")
  done
  rm -rf -- "$D"
done
