#!/bin/bash
# try.sh id...: run the check of each planted bug's property against /repo with the bug applied
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || continue
  s=$(date +%s); out=$(bash /verif/check.sh $p quick 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 VIOLATION)"
  [ $rc = 1 ] || echo "$out" | tail -3
done
