import sys,os,importlib,tempfile
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vx import run
m=importlib.import_module('contracts.'+sys.argv[1])
w='/tmp/w_'+sys.argv[1]; os.makedirs(w,exist_ok=True)
o=run.verify(m,w,verbose=True,smoke='-s' in sys.argv,EngClass=getattr(m,'ENG',None),unit_hook=getattr(m,'UNIT',None))
print(o.status,o.detail,'obs',o.obligations,'verified',getattr(o,'verified_items',0),'smoke',o.smoke,'time',round(o.solver,1),'rounds',getattr(o,'rounds',0))
for e in o.failed[:12]:
    print('---',e['msg'],e['fn'],e['line'],e['labels']); print('   ',e['text'][:300])
    if not e['labels']: print(e['rendered'])
if '-c' in sys.argv and hasattr(o,'drop'):
    import json
    p=run.V+'/contracts/drops.json'
    d=json.load(open(p)) if os.path.exists(p) else {}
    if o.drop: d[m.ID]=[list(k) for k in o.drop]
    else: d.pop(m.ID,None)
    json.dump(d,open(p,'w'),indent=0,sort_keys=True)
