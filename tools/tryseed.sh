#!/bin/bash
# tryseed.sh ID...: runs the check of each planted bug against a patched worktree.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /tmp/wt checkout -q -- . ; git -C /tmp/wt apply $V/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  VF_REPO=/tmp/wt timeout 900 python3 $V/tools/vfcheck.py $p > /tmp/try.$id.log 2>&1; r=$?
  echo "$id $p exit=$r $(grep -m1 VIOLATION /tmp/try.$id.log | cut -c1-150)"
  git -C /tmp/wt checkout -q -- .
done
