#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of not-applicable properties."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
NA={}
TECH="stateful property-based testing (proptest histories with shrinking) of the compiled canister on a simulated replica against a reference model and a replay of its own block log"
NOTE="Sampled: holds on every generated history of the run, with the oracles evaluated after every message; bugs that need rarer histories than the generator makes can be missed. Trusts the simulated replica and native instead of wasm code."
SPECIAL={}
try:
    exec(open(here+"/tools/special.py").read())
except FileNotFoundError:
    pass
checks=[]
for p in props:
    i=p["id"]
    if i in NA: continue
    t,n=SPECIAL.get(i,(TECH,NOTE))
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"./check.sh {i} --tier thorough",technique=t,level="exploration",level_note=n))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 hooks=dict(guard="none",enable="no hooks: the checks compile /repo as it is, with cargo patches for the system interface, stable memory and HTTP types (harness/shims)",source_commits=[]),
 notes="check.sh ID builds the harness against /repo's working tree and searches; check.sh ID --replay FILE runs one replay file. Known findings and repaired defects: known-findings.txt.")
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1); open(here+"/MANIFEST.json","a").write("\n")
