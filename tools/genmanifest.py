#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: the claimed checks below, everything else in properties.jsonl is not_applicable.
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
ref="online monitor: the real oracle is driven block by block and compared with an independent reference after every slot"
note="Every slot of every generated history is judged. Trusts the reference model (harness/model.go, written from the documented rules) and that blocks reach the oracle through FullBlock's constructor and setters. Reach is bounded by the generated histories (seeded, biased to fork and fee boundaries, dust, bans, exits)."
C={}
def c(id,tech,level_note,level="exploration"):
    C[id]={"property":id,"quick_cmd":"bash run.sh "+id,"thorough_cmd":"VERIF_TIER=thorough bash run.sh "+id,"technique":tech,"level":level,"level_note":level_note}
for i,t in [("C01","conservation monitor: books added up after every slot over generated histories"),("C02",ref+" (shares)"),("C03",ref+" (status life cycle)"),("C04",ref+" (subscriptions)"),
            ("C05",ref+" (unsubscriptions)"),("C06",ref+" plus direct assertions on banned validators"),("C07","monotonicity monitor on claimable balances plus reference comparison"),
            ("C08",ref+" (block classification)"),("C09",ref+" (cleanup slots)")]:
    c(i,t,note)
exec(open(V+"/tools/manifest_more.py").read()) if os.path.exists(V+"/tools/manifest_more.py") else None
na=[{"property":i,"reason":NA.get(i,"the check is not built yet") if "NA" in globals() else "the check is not built yet"} for i in ids if i not in C]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[C[i] for i in ids if i in C],"not_applicable":na,
   "notes":"No hooks in /repo: the monitors observe exported functions, files, HTTP traffic and system calls. /repo carries fix commits only (see known_findings.txt)."}
if not na: del m["not_applicable"]
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
