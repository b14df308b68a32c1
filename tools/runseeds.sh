#!/bin/bash
# usage: runseeds.sh [id ...]   run each planted change's own check against it
# (in /repo's working tree, undone afterwards) and print whether it is caught.
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id APPLY"; continue; }
  s=$(date +%s)
  o=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc -eq 1 ] && grep -q "VIOLATION property=$p " <<<"$o"; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$id $p $r $(( $(date +%s) - s ))s"
done
