#!/bin/bash
# apply each planted bug to /repo, run its property's quick check, undo.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for d in ${@:-$(ls "$here/seeded")}; do
    p=$(python3 -c "import json;print(json.load(open('$here/seeded/$d/meta.json'))['property'])")
    git -C /repo apply "$here/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
    out=$(VERIF_SEED=${VERIF_SEED:-1} bash "$here/check.sh" "$p" "${TIER:-quick}" 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "$d $p rc=$rc $(echo "$out" | grep -A1 -m1 VIOLATION | tail -1 | cut -c1-160)"
done
