#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (what is claimed) and the notes below."""
import json,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,H); sys.dont_write_bytecode=True
import checks
props=[json.loads(l) for l in open(f"{H}/properties.jsonl")]
NOTE={}; TECH={}
exec(open(f"{H}/tools/notes.py").read())
ch=[];na=[]
for p in props:
    i=p["id"]
    if i in checks.CHECKS:
        ch.append({"property":i,"quick_cmd":f"python3 run.py {i}","thorough_cmd":f"VERIF_TIER=thorough python3 run.py {i} --thorough",
          "evidence_file":f"evidence/{i}.json","technique":TECH.get(i,T0),"level":"model_checking","level_note":NOTE[i]})
    else: na.append({"property":i,"reason":NA.get(i,"check not built yet; see DESIGN.md")})
json.dump({"version":1,"setup_cmd":"true","checks":ch,"not_applicable":na,
 "notes":"Each check compiles /repo's sources afresh (g++, offline) and explores the real code; no hooks in /repo are needed."},open(f"{H}/MANIFEST.json","w"),indent=1)
