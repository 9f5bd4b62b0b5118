#!/bin/bash
# catch.sh ID...: run the property's quick check with the planted change applied
for ID in "$@"; do
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$ID/patch.diff
S=$(date +%s); timeout 900 node /verif/engine/run.ts $P quick > /tmp/catch.$ID.out 2>&1; RC=$?
git -C /repo checkout -q -- .
echo "$ID rc=$RC $(( $(date +%s)-S ))s $(grep VIOLATION /tmp/catch.$ID.out | head -1)"
done
