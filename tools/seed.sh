#!/bin/bash
# seed.sh ID PROP "needs" "breaks" FILE PERL [FILE PERL ...] < demo body (ESM TypeScript; `R` is /repo's file URL base)
set -eu
ID=$1 PROP=$2 NEEDS=$3 BREAKS=$4; shift 4
D=/verif/seeded/$ID; mkdir -p "$D"
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
while [ $# -ge 2 ]; do perl -0pi -e "$2" "/repo/$1"; shift 2; done
git -C /repo diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "EMPTY PATCH $ID"; exit 1; }
{ echo 'import { pathToFileURL } from "node:url"; import assert from "node:assert/strict"; import path from "node:path"; import fs from "node:fs"; import os from "node:os";'
  echo 'const load = (f: string): Promise<any> => import(pathToFileURL(path.join(process.cwd(), f)).href);'
  cat
  echo 'console.log("ok");'; } > "$D/demo.mts"
cat > "$D/demo.sh" <<'S'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
exec timeout 120 node --no-warnings --conditions=pi-source "$D/demo.mts"
S
chmod +x "$D/demo.sh"
python3 - "$D/meta.json" "$PROP" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],"w"),indent=1)
P
cd /repo
if bash "$D/demo.sh" >/tmp/demo.out 2>&1; then echo "$ID: DEMO PASSES WITH PATCH"; cat /tmp/demo.out; fi
git checkout -q -- .
bash "$D/demo.sh" >/tmp/demo.out 2>&1 || { echo "$ID: DEMO FAILS ON CLEAN TREE"; tail -20 /tmp/demo.out; }
git -C /repo apply --check "$D/patch.diff" && echo "$ID seeded"
