#!/bin/bash
# caught.sh [-o] ID... : apply each planted change to /repo, run the quick
# check of its property, undo it.   ALL=1: every planted change.
cd /verif
ids="$*"; [ -n "$ALL" ] && ids=$(ls seeded)
trap 'git -C /repo checkout -- .' EXIT
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  v=$(echo "$out" | grep -c "^VIOLATION property=$p ")
  echo "$id ($p): rc=$rc violations-lines=$v $(echo "$out" | grep 'rejected:' | head -1 | cut -c1-120)"
done
