#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties that have a check."""
import json, os, sys
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(here+"/../properties.jsonl")]
exec(open(here+"/claims.py").read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CLAIMS:
        tech,note=CLAIMS[i]
        checks.append({"property":i,"quick_cmd":"VERIF_TIER=quick python3 check.py "+i,
          "thorough_cmd":"VERIF_TIER=thorough python3 check.py "+i,
          "evidence_file":"evidence/%s.json"%i,"technique":tech,"level":"model_checking","level_note":note})
    else: na.append({"property":i,"reason":NA.get(i,"no check built yet")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"TLA+ specification in spec/, checked with TLC; the implementation is bound to it by conformance checking of recorded runs and by replaying specification behaviours. No hooks in /repo."}
open(here+"/../MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
print(len(checks),len(na))
