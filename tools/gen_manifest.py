#!/usr/bin/env python3
"""Writes MANIFEST.json. Run from /verif: python3 tools/gen_manifest.py"""
import json
T={}
exec(open("tools/techniques.py").read())
props=[json.loads(l) for l in open("properties.jsonl")]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in T:
        tech,note=T[i]
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",
            technique=tech,level="model_checking",level_note=note))
    else:
        na.append(dict(property=i,reason=NA.get(i,"check not built yet")))
m=dict(version=1,setup_cmd="./run.sh setup",checks=checks,not_applicable=na,
 notes="One explicit-state explorer (mc/) enumerates, within stated bounds, every derivation of a synchronous reference grammar (mc/spec), every edit of them, every short character string and every short statement history, and runs the real parser on each; see DESIGN.md. No hooks in /repo are needed.")
json.dump(m,open("MANIFEST.json","w"),indent=1)
