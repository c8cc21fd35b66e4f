#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props_config.py."""
import json, os, sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,R)
from props_config import PROPS
props=[json.loads(l) for l in open(R+"/properties.jsonl")]
NA=getattr(__import__("props_config"),"NOT_APPLICABLE",{})
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in PROPS:
        b=PROPS[i]["bounds"]; b=b["quick"] if isinstance(b,dict) else b
        checks.append(dict(property=i,quick_cmd=f"python3 check.py {i} --tier quick",thorough_cmd=f"python3 check.py {i} --tier thorough",
          technique="symbolic execution of the repository's C++ (scalar type instantiated with a symbolic real), obligations decided by z3 (QF_LRA/QF_NRA), counterexamples replayed on the double build",
          level="model_checking",level_note="Holds for every value inside the bounds: "+b+". Exact real arithmetic; rounding is outside the claim. Trusted: the symbolic scalar engine (checked against the double build on concrete inputs every run), Eigen's template code, the oracle in the harness, z3."+(" "+"; ".join(PROPS[i].get("assumptions",[])) if PROPS[i].get("assumptions") else "")))
    else: na.append(dict(property=i,reason=NA.get(i,"no check yet")))
json.dump(dict(version=1,setup_cmd="python3 -c \"import props_config\" && z3 --version && g++ --version",checks=checks,not_applicable=na,
  notes="No hooks in /repo: the harnesses include the repository's sources directly and instantiate its templates with the symbolic scalar; every run rebuilds from /repo's working tree."),open(R+"/MANIFEST.json","w"),indent=1)
