#!/usr/bin/env python3
"""mkdesign.py: DESIGN.md from design.head.md, known-findings.json, the contracts, the last evidence and the seeds."""
import json,os,sys,importlib,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V,V+'/tools']
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
exec(open(V+'/tools/claims.py').read())
out=open(V+'/tools/design.head.md').read()
for x in json.load(open(V+'/known-findings.json'))['fixed']: out+='* '+x.replace('fixed: property=','')+'\n'
out+='\n'+open(V+'/tools/design.mid.md').read()
caught=json.load(open(V+'/tools/seedresults.json')) if os.path.exists(V+'/tools/seedresults.json') else {}
out+='\n## 4. Property by property\n'
for p in props:
    i=p['id']; out+=f"\n### {i} {p['title']}\n\n{p['statement']}\n\n"
    if i in CLAIMS:
        m=importlib.import_module('contracts.'+i.lower())
        lv=getattr(m,'LEVEL','proof')
        out+=f"*Decided by:* {lv}. {CLAIMS[i]['note']}\n"
        ex=getattr(m,'EXPLAIN',None)
        if ex: out+=f"*How:* {ex}\n"
        ev=f"{V}/evidence/{i}.json"
        if os.path.exists(ev):
            c=json.load(open(ev))['coverage']
            names={}
            for f in c['functions_under_contract']:
                n=f['function'].replace('refract::','').replace('snowcrash::','').replace('mdp::','').replace('drafter::',''); names[n]=names.get(n,0)+1
            l=[n+(f' (x{k})' if k>1 else '') for n,k in names.items()]
            out+=f"*Functions under contract ({len(c['functions_under_contract'])}):* {', '.join(l[:24])}{' …' if len(l)>24 else ''}. *Obligations:* {c['obligations']}.\n"
        A=list(getattr(m,'ASSUME',[]))+list(getattr(m,'TRUSTED',[]))
        if A: out+='*Assumed:* '+'; '.join(A)+'.\n'
    else: out+=f"*Not applicable:* {NA[i]}\n"
out+='\n## 5. Seeded changes\n\nEach is in `seeded/<id>/` with a demonstration; "proof" says what the prover alone did, the concrete input always comes from the replay harness.\n\n| change | property | needs | proof | check |\n|---|---|---|---|---|\n'
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d)); r=caught.get(i,{})
    out+=f"| {i} | {m['property']} | {m['needs']} | {r.get('proof','?')} | {r.get('check','?')} |\n"
open(V+'/DESIGN.md','w').write(out)
print(len(out))
