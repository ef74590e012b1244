#!/bin/bash
# seeded.sh [ID...]: is each planted bug caught by the check of its property?
# (changes /repo's working tree, then restores it)
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "/repo isn't clean"; exit 2; }
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$here/seeded/$id/patch.diff" || { echo "$id doesn't apply"; continue; }
  s=$(date +%s); out=$("$here/check.sh" "$prop" 2>&1); c=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id exit=$c $((e-s))s $(grep VIOLATION <<< "$out" | head -1)"
done
