#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os, re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
CLAIMED=json.load(open(os.path.join(root,"tools","claimed.json")))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CLAIMED:
        c=CLAIMED[i]
        checks.append({"property":i,"quick_cmd":"bash check.sh %s"%i,"thorough_cmd":"VERIF_TIER=thorough bash check.sh %s"%i,
            "evidence_file":"evidence/%s.json"%i,"technique":c["technique"],"level":"exploration","level_note":c["note"]})
    else:
        na.append({"property":i,"reason":"not claimed yet: its check is still being built"})
json.dump({"version":1,"setup_cmd":"bash check.sh setup","checks":checks,"not_applicable":na},open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
