#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate): a property is claimed when harness/<id>*.cpp exists."""
import json,os,glob
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
NA=json.load(open(V+'/tools/not_applicable.json')) if os.path.exists(V+'/tools/not_applicable.json') else {}
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
checks=[]; na=[]
for i in ids:
    if glob.glob(f'{V}/harness/{i.lower()}*.cpp') and i not in NA:
        checks.append(dict(property=i,quick_cmd=f'python3 check.py {i}',thorough_cmd=f'VERIF_TIER=thorough python3 check.py {i}',evidence_file=f'evidence/{i}.json',
          technique='symbolic execution of the LLVM IR of the current sources; SMT (z3, cvc5) decides every assertion',level='other',
          level_note='Bounded: holds for every value of the symbolic inputs within the bounds printed per entry in the evidence file; sizes, offsets and call histories are the listed ones. Trusts clang IR generation, the symbolic executor in engine/ (built here) and the SMT solvers; environment stubs in harness/env.cpp; primitives replaced by uninterpreted functions are named in DESIGN.md. Counterexamples are replayed natively before they are reported.'))
    else: na.append(dict(property=i,reason=NA.get(i,'no check built yet')))
json.dump(dict(version=1,setup_cmd='python3 check.py --setup',checks=checks,not_applicable=na,notes='See DESIGN.md. Known findings: known_findings.json.'),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',[x['property'] for x in na],'not')
