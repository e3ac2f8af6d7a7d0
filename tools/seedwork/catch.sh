#!/bin/bash
# catch.sh id...: does the quick check of the property catch it?
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo apply $S/patch.diff || continue
  s=$(date +%s); (cd /verif && ./run.sh $P quick >/tmp/seedwork/out.$id 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$id $P exit=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seedwork/out.$id)"
done
