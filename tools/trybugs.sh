#!/bin/bash
# trybugs.sh [id...]: run each planted bug's check against it in /repo (applies the patch and undoes it)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -E 'VIOLATION' | head -1) | $(echo "$out" | grep -E 'failed obl|failing input|note:' | head -2 | cut -c1-150 | tr '\n' ' ')"
  grep -E "^== |obligation not" evidence/replay/$p.txt 2>/dev/null | head -3
done
