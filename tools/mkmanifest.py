#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os, re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
T="contract-based deductive verification: contracts on the real functions, verification conditions generated from their SSA on every run and discharged by z3/cvc5"
TB="bounded stand-in (labelled, not a proof) for functions no contract reaches: contracts executed on random values and an executable oracle"
claims={}
exec(open(root+"/tools/claims.py").read())
m={"version":1,"setup_cmd":"bash build.sh","checks":[],"not_applicable":[]}
for i in ids:
    if i in claims:
        c=claims[i]
        m["checks"].append({"property":i,"quick_cmd":"./check %s quick"%i,"thorough_cmd":"./check %s thorough"%i,
          "technique":c.get("technique",T),"level":c.get("level","proof"),"level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":na.get(i,"check not built yet")})
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
