#!/bin/bash
# Apply each planted change to /repo, run its property's quick check, undo it.
cd "$(dirname "$0")/.." || exit 2
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  t=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 890 bash check.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p exit $rc $(( $(date +%s) - t ))s $(echo "$out" | grep -m1 -v '^$' | head -c 150) | $(echo "$out" | grep -c VIOLATION)"
done
