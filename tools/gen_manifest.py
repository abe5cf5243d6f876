#!/usr/bin/env python3
# writes MANIFEST.json from the harness directories present and properties.jsonl
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
NA={}
NOTES={}
try:
    exec(open(root+'/tools/notes.py').read())
except FileNotFoundError: pass
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.isdir(f'{root}/harness/{i.lower()}'):
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}",
          "evidence_file":f"evidence/{i}.json","technique":"bounded symbolic execution of the go/ssa form of the real code, decided by z3 (cvc5 cross-check), counterexamples replayed natively",
          "level":"model_checking","level_note":NOTES.get(i,"Every input within the bounds stated beside each harness (repeated in the evidence) is decided by the solver; trusts go/ssa, the engine's models of json/fmt, and z3. Nothing is claimed outside the bounds.")})
    else:
        na.append({"property":i,"reason":NA.get(i,"check under construction")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"The engine (engine/) loads /repo's working tree with the harnesses (harness/) as an overlay, builds go/ssa, and executes it symbolically; see DESIGN.md. No hooks in /repo."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
