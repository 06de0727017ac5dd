#!/bin/bash
# applies each planted bug in turn to /repo and runs its property's quick check: tools/runseeds.sh [ids...]
cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
ids="$@"; [ -n "$ids" ] || ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  t=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  v=$(echo "$out" | grep -c "^VIOLATION property=$p ")
  echo "$id $p rc=$rc violations=$v $(($(date +%s)-t))s"
done
