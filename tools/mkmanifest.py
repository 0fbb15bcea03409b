#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties and the reasons for the others."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
PROOF='contract-based deductive verification: contracts and loop invariants on the functions of /repo, translated mechanically from the clang AST on every run, every obligation discharged by Verus/Z3; failing obligations replayed by a concrete harness'
BASE='Proof for all inputs of the functions under contract (translated from /repo on every run). Trusted: clang AST, the translator vx/, the standard-library models of vx/stl.py, Verus and Z3; container sizes at most 2^62. '
exec(open(V+'/tools/claims.py').read())
checks=[]
for p in props:
    i=p['id']
    if i not in CLAIMS: continue
    c=CLAIMS[i]
    checks.append(dict(property=i,quick_cmd=f"python3 check.py {i} quick",thorough_cmd=f"python3 check.py {i} thorough",technique=c.get('technique',PROOF),level=c.get('level','proof'),level_note=(BASE if c.get('level','proof')=='proof' else '')+c['note']))
na=[dict(property=p['id'],reason=NA[p['id']]) for p in props if p['id'] not in CLAIMS]
json.dump(dict(version=1,setup_cmd='python3 tools/setup.py',checks=checks,not_applicable=na),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not applicable')
