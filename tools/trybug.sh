#!/bin/bash
# trybug.sh ID...: apply a planted bug to /repo, run its property's quick check, undo
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  o=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 vx/check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc"; echo "$o" | grep -vE "^KNOWN" | cut -c1-${W:-220} | head -${L:-6}
done
