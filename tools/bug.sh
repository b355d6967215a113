#!/bin/bash
# bug.sh ID...: applies a planted bug to the scratch copy and runs its check there
cd "$(dirname "$0")/.." || exit 2
for b in "$@"; do
  tools/fresh.sh; git -C /tmp/rb apply $PWD/seeded/$b/patch.diff || continue
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  echo "== $b $p"; GOCV_REPO=/tmp/rb ./check.sh $p quick | tail -4 | cut -c1-600
  tools/fresh.sh
done
