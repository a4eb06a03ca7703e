#!/usr/bin/env python3
# Generates MANIFEST.json from the list of implemented checks.
import json,sys
C={}
exec(open('/verif/checks.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in C:
        t,l,n=C[i]
        checks.append({"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"./check {i} --thorough","evidence_file":f"evidence/{i}.json","technique":t,"level":l,"level_note":n})
    else: na.append({"property":i,"reason":NA.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"bash ./setup.sh","hooks":{"guard":"VERIF_HOOKS","enable":"no hooks are used: every check compiles the sources of /repo unchanged","source_commits":[]},"checks":checks,"not_applicable":na,"notes":"Every check compiles the library from /repo's working tree (buildlib.sh) and executes it; see DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
