#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current tree.

1. extract the functions under contract from /repo's sources (clang AST), translate them to Verus proof functions,
   and have Verus discharge every obligation;
2. run the replay harness (real code, concrete inputs, independent oracle, ASan/UBSan): it turns a violated property into
   a concrete failing input, and is the bounded stand-in for what the translation cannot reach.
Exit 0: held; exit 1 with a VIOLATION line: broken. """
import sys, os, time, json, re, shutil, tempfile, subprocess, importlib, threading, traceback
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V)
sys.setrecursionlimit(20000)
threading.stack_size(512*1024*1024)
from vx import run, gen
import knownf

def refract_sources():
    import glob
    b=run.REPO+'/packages/drafter/src/'
    l=[b+'refract/'+x+'.cc' for x in('Element','InfoElements','Registry','Query','Utils','VisitorUtils','ComparableVisitor','TypeQueryVisitor','IsExpandableVisitor','ExpandVisitor','PrintVisitor')]
    l+=sorted(glob.glob(b+'refract/dsd/*.cc'))+[b+'utils/log/Trivial.cc']
    return [os.path.relpath(x,run.REPO) for x in l if os.path.exists(x)]
def harness_build(prop,work):
    src=f"{V}/replay/{prop.lower()}.cc"
    if not os.path.exists(src): return None,'none'
    head=open(src).read()
    srcs=[]
    for m in re.finditer(r'^// SOURCES: (.*)$',head,re.M): srcs+=m.group(1).split()
    if '@REFRACT' in srcs:
        srcs.remove('@REFRACT'); srcs=refract_sources()+srcs
    exe=work+'/harness'
    base=['-std=c++14','-DNDEBUG','-DDRAFTER_BUILD_STATIC=1','-O1','-g','-fsanitize=address,undefined','-fno-sanitize-recover=undefined','-D_GLIBCXX_ASSERTIONS','-w']
    if '// PLAIN' in head: base=['-std=c++14','-DNDEBUG','-DDRAFTER_BUILD_STATIC=1','-O1','-w']
    if '// STUBS' in head: base=['-std=c++17','-include','cstdint','-I'+V+'/tus/stubs']+base[1:]
    inc=['-I'+run.R+x for x in('/boost','/apib/include','/apib/src','/apib-parser/include','/apib-parser/src/snowcrash','/apib-parser/src/markdown-parser','/apib-parser/src','/drafter/src')]+['-I'+V+'/replay']
    units=[src]+[run.REPO+'/'+x for x in srcs]
    procs=[]; objs=[]
    from concurrent.futures import ThreadPoolExecutor
    def comp(i):
        o=f"{work}/h{i}.o"
        r=subprocess.run(['g++']+base+inc+['-c',units[i],'-o',o],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        return o,r
    with ThreadPoolExecutor(6) as ex: rs=list(ex.map(comp,range(len(units))))
    for o,r in rs:
        if r.returncode: return None,'does not compile: '+r.stdout[-1500:]
    r=subprocess.run(['g++']+base+[o for o,_ in rs]+['-o',exe,'-lpthread']+re.findall(r'^// LDFLAGS: (.*)$',head,re.M),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: return None,'does not link: '+r.stdout[-1500:]
    for o,_ in rs: os.remove(o)
    return exe,None

class H: pass
def harness_run(exe,work,tier,seed):
    h=H(); h.fails=[]; h.cases=0; h.distinct=0; h.note=None
    env=dict(os.environ,VERIF_TIER=tier,VERIF_SEED=str(seed),REPLAY_CURRENT=work+'/current',ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:allocator_may_return_null=1:malloc_context_size=12',UBSAN_OPTIONS='print_stacktrace=0')
    t0=time.time()
    sub=work+'/hrun'; os.makedirs(sub,exist_ok=True)
    with open(work+'/h.out','w') as f, open(work+'/h.err','w') as g:
        p=subprocess.Popen([exe],stdout=f,stderr=g,env=env,cwd=sub)
        try: rc=p.wait(timeout=300 if tier=='quick' else 3000)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc='timeout'
    h.wall=time.time()-t0
    out=open(work+'/h.out',errors='replace').read(); err=open(work+'/h.err',errors='replace').read()
    m=re.search(r'^cases=(\d+) distinct=(\d+)',out,re.M)
    if m: h.cases=int(m.group(1)); h.distinct=int(m.group(2))
    out=re.sub(r'[\x00-\x08\x0b-\x1f\x7f]',lambda m: '\\x%02x'%ord(m.group(0)),out)
    for m in re.finditer(r'^FAIL key=(\S+) (.*)$',out,re.M): h.fails.append((m.group(1),m.group(2)))
    cur=open(work+'/current',errors='replace').read().strip() if os.path.exists(work+'/current') else '?'
    h.sample=cur
    if rc not in(0,1,'timeout') or (rc==1 and not h.fails):
        kind=re.search(r'(AddressSanitizer: [\w-]+|runtime error: .*|terminate called.*|LeakSanitizer: .*|Assertion .*)',err)
        k=kind.group(1) if kind else f"exit status {rc}"
        key='crash:'+re.sub(r'\W+','-',k.split(':')[1].strip() if ':' in k else k)[:40].strip('-')
        h.fails.append((key,f"{k} while running: {cur}")); h.err=err[-3000:]
    elif rc=='timeout':
        h.fails.append(('hang',f"no progress within the time limit while running: {cur}"))
    return h

def main():
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time()
    os.makedirs(V+'/evidence',exist_ok=True); os.makedirs(V+'/build',exist_ok=True)
    work=tempfile.mkdtemp(prefix='run_'+prop+'_',dir=V+'/build')
    try: rc=decide(prop,tier,seed,t0,work)
    finally: shutil.rmtree(work,ignore_errors=True)
    return rc

def decide(prop,tier,seed,t0,work):
    mod=importlib.import_module('contracts.'+prop.lower())
    box={}
    def harness():
        try:
            exe,why=harness_build(prop,work)
            if exe is None: box['note']=why; return
            box['h']=harness_run(exe,work,tier,seed)
        except Exception as ex: box['note']='harness: '+repr(ex)
    th=threading.Thread(target=harness); th.start()
    box2={}
    def proof():
        try: box2['o']=run.verify(mod,work,rlimit=getattr(mod,'RLIMIT',60)*(1 if tier=='quick' else 4),threads=6,EngClass=getattr(mod,'ENG',None),unit_hook=getattr(mod,'UNIT',None),smoke=True)
        except Exception as ex:
            traceback.print_exc(); box2['ex']=repr(ex)
    if tier=='quick': run.DEADLINE=t0+780
    tp=threading.Thread(target=proof); tp.start(); th.join()
    # a failing input decides the check; the proof then gets little more time to name the obligation
    if tier=='quick' and box.get('h') and box['h'].fails: run.DEADLINE=min(run.DEADLINE,max(time.time(),t0)+150)
    tp.join()
    o=box2.get('o')
    if o is None:
        o=run.Outcome(); o.status='undecided'; o.detail=['internal: '+box2.get('ex','?')]; o.obligations=o.discharged=0; o.failed=[]; o.functions=[]; o.models=[]; o.assumptions=[]; o.inlined=[]; o.solver=0; o.cmd=''; o.verified_items=0; o.smoke=None
    h=box.get('h')
    known=knownf.load(prop)
    viol=[]; quiet=[]
    if h:
        seen=set()
        for k,w in h.fails:
            kf=knownf.match(known,k,w)
            if kf:
                if kf['id'] not in seen: seen.add(kf['id']); quiet.append(kf)
            else: viol.append((k,w))
    failed_known=[]; failed=[]
    if o.status=='failed':
        for e in o.failed:
            kf=knownf.match_ob(known,e)
            (failed_known if kf else failed).append(e)
            if kf and kf not in quiet: quiet.append(kf)
    for kf in known:
        if kf.get('always') and kf not in quiet: pass
    print(f"{prop} [{tier}] proof: {o.status} ({o.discharged}/{o.obligations} obligations, {len(o.functions)} functions under contract, {round(o.solver,1)} s solver)")
    for d in o.detail: print('  note:',d[:300])
    if h: print(f"  replay harness: {h.cases} cases, {len(h.fails)} failing, {round(h.wall,1)} s")
    else: print('  replay harness:',(box.get('note') or 'none')[:300])
    for kf in quiet: print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    rc=0
    if viol or failed:
        os.makedirs(V+'/build/replays',exist_ok=True)
        path=f"{V}/build/replays/{prop}.txt"
        with open(path,'w') as f:
            f.write(f"property {prop} violated on {run.REPO}\n")
            if viol:
                f.write("\n== failing inputs found against the real code (VERIF_SEED=%d, tier %s) ==\n"%(seed,tier))
                for k,w in viol: f.write(f"[{k}] {w}\n")
                if getattr(h,'err',None): f.write('\n'+h.err+'\n')
                f.write(f"\nreplay: VERIF_SEED={seed} python3 check.py {prop} {tier}   (harness replay/{prop.lower()}.cc)\n")
            if failed:
                f.write("\n== failed proof obligations ==\n")
                for e in failed:
                    f.write(f"{e['msg']} in {e['fn']}: {'; '.join(b for b,_ in e['labels']) or e['text']}\n{e['rendered']}\n")
        for e in failed[:5]: print('  failed obligation:',e['msg'],'|','; '.join(dict.fromkeys(b for b,_ in e['labels'])) or e['text'][:200])
        for k,w in viol[:5]: print('  failing input:',f"[{k}] {w[:300]}")
        print(f"VIOLATION property={prop} replay={path}"+('' if viol else ' no-failing-input-found'))
        rc=1
    evidence(prop,tier,seed,t0,mod,o,h,box,len(viol)+len(failed),quiet)
    return rc

def evidence(prop,tier,seed,t0,mod,o,h,box,nviol,quiet):
    proved=o.status=='proved'
    cov={'status':o.status,'obligations':o.obligations,'discharged':o.discharged,
         'checker_cmd':f"python3 check.py {prop} {tier}; verifier: {re.sub(re.escape(V)+r'/build/run_[^/ ]*','<work>',o.cmd)}",
         'verified_items':o.verified_items,'solver_s':round(o.solver,2),'back_end':'Verus 0.2026.09.13 with Z3','invariant_rounds':getattr(o,'rounds',0),
         'functions_under_contract':o.functions,'inlined_functions':o.inlined,'library_models_used':o.models,
         'vacuity':getattr(o,'smoke',None),
         'trusted_base':['clang 18 front end and tools/extract (AST dump)','vx/ (translation of the AST to Verus proof functions: path-wise symbolic execution, no semantics dropped silently)','Verus and Z3',
             'standard-library models of vx/stl.py for: '+(', '.join(o.models) or 'none')]+list(getattr(mod,'TRUSTED',[]))+[f"assumed contract: {c.q}: {c.trusted if isinstance(c.trusted,str) else ''} ensures {'; '.join(c.ensures)}" for c in mod.CONTRACTS if c.trusted]+[f"assumed in addition for callers of {c.q}: {'; '.join(c.axioms)}" for c in mod.CONTRACTS if getattr(c,'axioms',None)]}
    if o.detail: cov['undecided_because']=[d[:400] for d in o.detail]
    if o.failed: cov['failed']=[f"{e['msg']}: {'; '.join(dict.fromkeys(b for b,_ in e['labels']))}"[:300] for e in o.failed[:20]]
    if h: cov['replay']={'label':'bounded, not counted as proved','evaluations':h.cases,'distinct':h.distinct,'failing':len(h.fails),'wall_s':round(h.wall,2),'last_case':h.sample[:300]}
    else: cov['replay']={'label':'not run','why':(box.get('note') or '')[:500]}
    level='proof' if (proved or o.status=='failed') and not getattr(mod,'LEVEL',None) else getattr(mod,'LEVEL','other')
    if level=='other' or (level=='exploration' and not h):
        level='other'; cov['explanation']=getattr(mod,'EXPLAIN','')+' '+f"The deductive part of this run ended {o.status}; the replay harness (bounded) ran {h.cases if h else 0} cases."
    ev={'property':prop,'tier':tier,'seed':seed,'level':level,'coverage':cov,'assumptions':sorted(set(o.assumptions))+list(getattr(mod,'ASSUME',[])),'wall_s':round(time.time()-t0,2),'violations':nviol,'known_findings':[k['what'] for k in quiet]}
    p=f"{V}/evidence/{prop}.json"
    with open(p+'.tmp','w') as f: json.dump(ev,f,indent=1)
    os.replace(p+'.tmp',p)

if __name__=='__main__': sys.exit(main())
