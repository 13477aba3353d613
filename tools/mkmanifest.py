#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per checks/<ID>.py."""
import json,os,re,importlib,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)));sys.path.insert(0,V);sys.dont_write_bytecode=True
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
NA=json.load(open(V+"/tools/not_applicable.json")) if os.path.exists(V+"/tools/not_applicable.json") else {}
checks=[];na=[]
for p in props:
    i=p["id"]
    if os.path.exists(f"{V}/checks/{i}.py") and i not in NA:
        m=importlib.import_module("checks."+i)
        checks.append(dict(property=i,quick_cmd=f"bin/check {i} --tier quick",thorough_cmd=f"bin/check {i} --tier thorough",
            technique=getattr(m,"TECHNIQUE","TLA+ specification explored by TLC; behaviours replayed on the code and recorded traces validated by TLC"),
            level=getattr(m,"LEVEL","model_checking"),
            level_note=getattr(m,"NOTE","TLC explores the specification exhaustively at small scope with its invariants, every explored transition (or a seeded sample, as the evidence states) is replayed on the real code, and seeded random executions at larger scope are validated against the specification by TLC. Assumes the Go harness records observations faithfully.")))
    else:
        na.append(dict(property=i,reason=NA.get(i,"check not built yet")))
man=dict(version=1,setup_cmd="bin/setup",checks=checks,not_applicable=na,notes="TLA+/TLC model-based verification; see DESIGN.md")
if os.path.exists(V+"/tools/hooks.json"): man["hooks"]=json.load(open(V+"/tools/hooks.json"))
json.dump(man,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
