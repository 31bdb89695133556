#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from plans.py and the property list.
import json,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H)
from plans import PLANS,NOTES,NOT_APPLICABLE
props=[json.loads(l)["id"] for l in open(os.path.join(H,"properties.jsonl"))]
checks=[]; na=[]
for p in props:
    if p in PLANS:
        checks.append({"property":p,"quick_cmd":"python3 check.py "+p,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+p,
            "technique":"deterministic simulation with fault injection: seeded search over "+NOTES[p][0],"level":"exploration","level_note":NOTES[p][1]})
    else: na.append({"property":p,"reason":NOT_APPLICABLE[p]})
json.dump({"version":1,"setup_cmd":"python3 check.py --build","checks":checks,"not_applicable":na,
    "notes":"No hooks in /repo: every seam is placed at link time (wrapped libc file, memory and lock calls) or by the compiler (coverage and thread-sanitizer call-outs with our own runtime)."},
    open(os.path.join(H,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"claimed,",len(na),"not applicable")
