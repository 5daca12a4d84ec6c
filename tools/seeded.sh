#!/bin/bash
# For each planted bug (or the ones named): apply it to /repo, run its property's check, undo it.
# usage: seeded.sh [-t tier] [id...]   -> one line per bug: caught / MISSED / BROKEN
cd "$(dirname "$0")/.." || exit 2
tier=quick; [ "$1" = -t ] && { tier=$2; shift 2; }
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id $p DOES-NOT-APPLY"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=$tier timeout 900 ./run.sh "$p" "$tier" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$id $p caught"
  elif [ $rc = 0 ]; then echo "$id $p MISSED"
  else echo "$id $p BROKEN rc=$rc"; tail -5 <<<"$out"; fi
done
