#!/bin/bash
# confirm.sh ID...: full confirmation (build, stable tests, demo) of planted changes in a scratch copy mounted over /repo
for ID in "$@"; do
S=/tmp/confirm-scratch/repo; rm -rf /tmp/confirm-scratch; mkdir -p /tmp/confirm-scratch; cp -a /repo "$S"; git -C "$S" checkout -q -- .
git -C "$S" apply /verif/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; continue; }
cp -a /verif/seeded/$ID /tmp/confirm-scratch/demo
unshare -m bash -c "mount --bind $S /repo && nice bash /opt/vp/test.sh /tmp/confirm-scratch/out.json >/tmp/confirm-$ID.log 2>&1; cd /repo; bash /tmp/confirm-scratch/demo/demo.sh >/tmp/confirm-$ID.demo 2>&1; echo \$? > /tmp/confirm-scratch/rc"
python3 - "$ID" <<'P'
import json,sys
i=sys.argv[1]
b=json.load(open("/opt/vp/BASELINE.json")); b=b["stable"]
r=json.load(open(f"/tmp/confirm-scratch/out.json")); miss=[t for t in b if t not in set(r["passed"])]
print(i,"demo rc",open(f"/tmp/confirm-scratch/rc").read().strip(),"stable tests failing:",len(miss),miss[:5],flush=True)
P
rm -rf /tmp/confirm-scratch
done
