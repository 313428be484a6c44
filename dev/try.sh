#!/bin/bash
# try.sh [-q] SEED...: run the property's check against each planted bug (default: all) and report.
cd /verif
for s in "${@:-$(ls seeded)}"; do for s in $s; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
 out=$(./check.sh $p quick 2>&1); rc=$?
 git -C /repo checkout -q -- .
 echo "$s $p exit=$rc $(echo "$out" | grep VIOLATION | cut -c1-150)"
 echo "$out" | grep 'FAILED OBL' | head -3 | cut -c1-160
done; done
