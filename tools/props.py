#!/usr/bin/env python3
"""Single source for properties.jsonl (kept readable here, emitted as JSON lines)."""
import json, sys
CA="packages/coding-agent/src/core/"
AG="packages/agent/src/"
AI="packages/ai/src/"
TUI="packages/tui/src/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
exec(open(sys.path[0]+"/props_data.py").read())
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open(sys.path[0]+"/../properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
