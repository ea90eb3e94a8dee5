#!/bin/bash
# catch.sh [ids]: runs the quick check of the property against each planted bug
cd /tmp/plant/wt; git checkout -q -- .; git checkout -q --detach $(git -C /repo rev-parse HEAD)
for i in ${*:-$(ls /verif/seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
 git apply /verif/seeded/$i/patch.diff || continue
 s=$(date +%s)
 VERIF_REPO=/tmp/plant/wt VERIF_TARGET=/tmp/plant/ct bash /verif/check $p quick > /tmp/plant/c.$i.log 2>&1; rc=$?
 echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/plant/c.$i.log) $(grep -m1 '^VIOLATION' /tmp/plant/c.$i.log | cut -c1-120)"
 git checkout -q -- .
done
