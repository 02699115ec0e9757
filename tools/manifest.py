#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the claims below."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
CLAIMS=json.load(open(os.path.join(V,"tools","claims.json")))
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
NA={"C30":"No other MPQ implementation is available offline to act as the other party, and the property has no schedule, fault or time dimension a simulator could control. The part the repository documents is C25.",
    "C31":"A pure function of its arguments: no concurrency, time, I/O or randomness for a simulated schedule or fault to act on. Its effects are covered indirectly by C01 and C02."}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CLAIMS:
        c=CLAIMS[i]
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":c["technique"],"level":c.get("level","exploration"),"level_note":c["note"]})
    else:
        na.append({"property":i,"reason":NA.get(i,"Check not built yet.")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na}
hp=os.path.join(V,"tools","hooks.json")
if os.path.exists(hp): m["hooks"]=json.load(open(hp))
m["notes"]="See DESIGN.md. Every check is seeded search over simulated executions; replay with: bash replay.sh <file>."
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
