#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harness/props/*.json."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
reg={}
for f in sorted(glob.glob(V+'/harness/props/*.json')): reg.update(json.load(open(f)))
NA=json.load(open(V+'/tools/not_applicable.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in reg:
        r=reg[i]
        checks.append(dict(property=i,quick_cmd=f"bash run.sh {i} quick",thorough_cmd=f"bash run.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",
          technique="symbolic execution of the real code's Go SSA with an SMT solver (z3) deciding branches and assertions",
          level="model_checking",
          level_note="Bounded: every assertion is decided by z3 for all values within the harness bounds ("+"; ".join(dict.fromkeys(h['bounds'] for h in r['harnesses'] if h.get('tier','') in('','quick')))+"). Counterexamples are replayed on the natively compiled code before they are reported. Assumes: "+"; ".join(r['assumptions'])+". Trusts the engine's model of Go semantics and of the listed stand-ins, and z3. Outside: "+r['outside']+"."))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check built yet")))
m=dict(version=1,setup_cmd="bash run.sh build",hooks=dict(guard="none",enable="no hooks: harness files are added through go build overlays and never written to /repo",source_commits=[]),checks=checks,not_applicable=na,
  notes="Known and fixed findings: known_findings.json. Design: DESIGN.md.")
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write("\n")
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),"checks",len(na),"not applicable")
