#!/bin/bash
# tryseeds.sh [ID...]: run the property's quick check against a scratch copy with each seeded patch
HERE="$(cd "$(dirname "$0")/.." && pwd)"
WT=/tmp/seedwt
[ -d $WT ] || cp -a /repo $WT
head=$(git -C ${SEED_BASE:-/repo} rev-parse HEAD)
git -C $WT fetch -q ${SEED_BASE:-/repo} $head
for id in ${@:-$(ls $HERE/seeded)}; do
  git -C $WT checkout -q -f $head
  git -C $WT apply $HERE/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('$HERE/seeded/$id/meta.json'))['property'])")
  out=$(VERIF_REPO=$WT VERIF_EVIDENCE=/tmp/seed_evidence VERIF_SEED=1 $HERE/run.sh check $prop --tier quick --min-budget 10 2>&1)
  rc=$?
  echo "$id $prop rc=$rc $(echo "$out" | grep -o 'code=.*' | head -1) $(echo "$out" | grep -c VIOLATION)"
done
git -C $WT checkout -q -f $head
