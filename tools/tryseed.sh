#!/bin/bash
# tryseed.sh NAME.. : apply each seeded change to /repo, run its property's check, undo
for n in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$n/patch.diff || { echo "$n: does not apply"; continue; }
  ( cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 850 python3-vt vcgen/check.py $p 2>&1 | tail -2 | cut -c1-250 | sed "s/^/$n: /" )
  git -C /repo checkout -q -- .
done
