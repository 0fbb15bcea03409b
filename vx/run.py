"""Drive extraction, translation and Verus for one property."""
import copy, os, re, json, subprocess, sys, time, hashlib, shutil
from .core import *
from .prog import Prog
from .engine import *
from . import gen, stl
sys.setrecursionlimit(20000)
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VX_REPO','/repo')
R=REPO+'/packages'
FLAGS=['-std=c++14','-DNDEBUG','-DDRAFTER_BUILD_STATIC=1']+['-I'+R+x for x in('/boost','/apib/include','/apib/src','/apib-parser/include','/apib-parser/src/snowcrash','/apib-parser/src/markdown-parser','/apib-parser/src','/drafter/src')]
BUILD=os.environ.get('VX_BUILD',V+'/build')

def extractor():
    os.makedirs(BUILD,exist_ok=True)
    x=BUILD+'/extract'; src=V+'/tools/extract/extract.cc'
    h=hashlib.sha256(open(src,'rb').read()).hexdigest()
    if not(os.path.exists(x) and os.path.exists(x+'.sha') and open(x+'.sha').read()==h):
        t=x+f".{os.getpid()}"
        subprocess.run(['bash',V+'/tools/extract/build.sh',t],check=True)
        os.replace(t,x); open(x+'.sha','w').write(h)
    return x

STUBS=['-std=c++17','-I'+V+'/tus/stubs','-include','cstdint']
class ExtractFail(Exception): pass
def extract(tu,work,flags=()):
    src=tu if tu.startswith('/') else (V+'/'+tu if tu.startswith('tus/') else REPO+'/'+tu)
    out=work+'/'+san(tu)+'.json'
    r=subprocess.run([extractor(),out,REPO+','+V+'/tus',src,'--']+FLAGS+list(flags),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode or not os.path.exists(out): raise ExtractFail(f"{tu}: {r.stdout[-2000:]}")
    return out

def find_fns(P,ct):
    l=[]
    if ct.virt:
        return [f for tu in P.tus for f in (P.fn(tu,i) for i in range(len(tu.d['fns']))) if stdq(f.q)==ct.q and (ct.sig is None or ct.sig(f))][:1]
    for q,fs in P.by_q.items():
        if stdq(q)==ct.q: l+=fs
    l=[f for f in l if ct.sig is None or ct.sig(f)]
    seen=set(); r=[]
    for f in l:
        if f.mg and f.mg in seen and not f.internal: continue
        seen.add(f.mg); r.append(f)
    return r

class VerusResult: pass
DEADLINE=None # no verifier run goes on after this time (time.time())
def spin(src):
    """a solver of its own per function: they run in parallel, and no query sees the state another left behind"""
    return re.sub(r'^(pub proof fn (?:f_|lem_))',r'#[verifier::spinoff_prover] \1',src,flags=re.M)
def run_limited(cmd,work):
    f,g=open(work+'/v.out','w+'),open(work+'/v.err','w+')
    p=subprocess.Popen(cmd,stdout=f,stderr=g,text=True,cwd=work,start_new_session=True)
    while p.poll() is None:
        if DEADLINE and time.time()>DEADLINE:
            try: os.killpg(p.pid,9)
            except OSError: pass
            p.wait(); break
        try: p.wait(0.3)
        except subprocess.TimeoutExpired: pass
    f.seek(0); g.seek(0); r=(f.read(),g.read()); f.close(); g.close()
    return r
def run_verus(path,work,rlimit=60,threads=8,extra=()):
    t0=time.time()
    cmd=['verus','--crate-type=lib','--output-json','--error-format=json','--multiple-errors','100','--rlimit',str(rlimit),'--num-threads',str(threads),path]+list(extra)
    out,err=run_limited(cmd,work)
    res=VerusResult(); res.wall=time.time()-t0; res.cmd=' '.join(cmd); res.errors=[]; res.raw=err
    lines=open(path).read().split('\n')
    try: res.json=json.loads(out[out.index('{'):])
    except Exception: res.json={}
    vr=res.json.get('verification-results',{})
    res.verified=vr.get('verified',0); res.nerr=vr.get('errors',0); res.ok=bool(vr.get('success'))
    def lab(l):
        m=re.search(r'//OB (.*)$',lines[l-1]) if 0<l<=len(lines) else None
        return m.group(1) if m else None
    for x in err.split('\n'):
        if not x.startswith('{'): continue
        try: d=json.loads(x)
        except ValueError: continue
        if d.get('level')!='error': continue
        if d['message'].startswith('aborting due to'): continue
        labs=[]; pl=None
        def spans(dd):
            yield from dd.get('spans',[])
            for c in dd.get('children',[]): yield from spans(c)
        for sp in spans(d):
            if not os.path.basename(sp['file_name'])==os.path.basename(path): continue
            for l in range(sp['line_start'],min(sp['line_end'],sp['line_start']+3)+1):
                b=lab(l)
                if b: labs.append((b,sp.get('label') or ''))
                if sp['is_primary'] and pl is None: pl=l
        res.errors.append({'code':(d.get('code') or {}).get('code') if d.get('code') else None,'msg':d['message'],'labels':labs,'line':pl,'fn':owner_fn(lines,pl),'text':lines[pl-1].strip() if pl else '','rendered':(d.get('rendered') or '')[:1500]})
    return res
def owner_fn(lines,l):
    if not l: return None
    for i in range(l-1,-1,-1):
        m=re.match(r'\s*pub (?:broadcast )?(?:proof|open spec|spec) ?fn (\w+)',lines[i]) or re.match(r'#\[verifier::spinoff_prover\] pub proof fn (\w+)',lines[i]) or re.match(r'\s*(?:pub )?(?:broadcast )?proof fn (\w+)',lines[i])
        if m: return m.group(1)
    return None

class Outcome: pass
def late(): return DEADLINE is not None and time.time()>DEADLINE

def verify(prop,work,*a,**k):
    """optional contracts are an aid (smaller proofs); when one no longer applies its function is inlined instead"""
    o=verify_(prop,work,prop.CONTRACTS,*a,**k)
    cts=prop.CONTRACTS
    if o.status!='proved' and any(c.optional for c in cts) and not late():
        o2=verify_(prop,work,[c for c in cts if not c.optional],*a,**k)
        if o2.status=='proved': o2.rounds=o.rounds+o2.rounds; return o2
    return o
def verify_(prop,work,CONTRACTS,rlimit=60,threads=8,verbose=False,EngClass=None,unit_hook=None,smoke=False,cache=True):
    """prop: module-like object with ID, TUS, LIB, CONTRACTS. Returns Outcome."""
    o=Outcome(); o.status=None; o.detail=[]; o.t0=time.time(); o.obligations=0; o.discharged=0; o.solver=0.0; o.functions=[]; o.models=[]; o.assumptions=[]; o.inlined=[]; o.failed=[]; o.cmd=''
    o.verified_items=0; o.loops=[]; o.smoke=None
    try:
        P=Prog()
        for tu in prop.TUS: P.load(san(tu),extract(tu,work,getattr(prop,'FLAGS',())))
    except ExtractFail as ex:
        o.status='undecided'; o.detail=[f"extraction failed: {ex}"]; return o
    drop=set(); cached=set()
    if cache:
        # candidates known to be non-inductive on the tree this was last run on: only a head start, never trusted
        try: cached={tuple(k) for k in json.load(open(V+'/contracts/drops.json')).get(prop.ID,[])}
        except Exception: cached=set()
        drop|=cached
    for rnd in range(int(os.environ.get("VX_ROUNDS","60"))):
        cts=[c for c in CONTRACTS if not (c.optional or c.ifpresent) or find_fns(P,c)]
        u=Unit(P,cts)
        if unit_hook: unit_hook(u)
        fts=[]
        try:
            for ct in cts:
                fs=find_fns(P,ct)
                if not fs:
                    raise Unsupported(f"function under contract not found: {ct.q}")
                f=fs[0]
                ft=gen.translate(u,f,ct,frozenset(drop),EngClass or Eng); fts.append(ft)
                # further functions the contract speaks for (template instances): each body is verified against it
                for k,g in enumerate(fs[1:]):
                    if ct.trusted: break
                    if not P.resolve(g).has_body: continue
                    c2=copy.copy(ct); c2.name=f"{ct.name}__{k+2}"
                    fts.append(gen.translate(u,g,c2,frozenset(drop),EngClass or Eng))
        except (Unsupported,NoMerge,RecursionError,KeyError,IndexError,AttributeError,TypeError,ValueError,AssertionError) as ex:
            if verbose:
                import traceback; traceback.print_exc()
            o.status='undecided'; o.detail=[f"translation: {type(ex).__name__}: {ex}"]; return o
        text=['#![allow(unused_imports,unused_variables,non_snake_case,unused_parens,non_camel_case_types,unused_braces,dead_code,unused_mut)]',gen.PRELUDE]
        for n,fl in u.structs.items():
            if n in getattr(prop,'NOSTRUCT',()): continue
            text.append(f"pub struct {n} {{ {', '.join(f'pub {fsan(a)}: {b}' for a,b in fl)} }}")
        lib=getattr(prop,'LIB','')+' '.join(x for c in cts for x in list(c.hints)+list(c.loophints)+list(c.endhints))
        for k,x in (('keep_',stl.FILTER),('find_',stl.FINDLIB),('scmp',stl.SCMP),('substr_',stl.SUBSTR),('map_idx_',stl.MAPLIB)):
            if k not in u.extra and re.search(r'\b(lem_)?'+k.rstrip('_')+r'_?\b',lib): u.extra[k]=x
        text+=list(u.extra.values())
        text.append(prop.LIB)
        for ft in fts: text+=ft.text
        text.append('}')
        path=f"{work}/{prop.ID}.rs"
        src='\n'.join(text)
        if getattr(prop,'SPIN',True): src=spin(src)
        open(path,'w').write(src)
        res=run_verus(path,work,rlimit,threads)
        o.rounds=rnd+1
        o.solver+=res.wall; o.cmd=res.cmd; o.verified_items=res.verified
        o.obligations=sum(ft.obs for ft in fts)
        o.text=src
        if res.ok and res.verified>0: break
        # Houdini: drop loop-invariant candidates that are not inductive
        bad=set()
        keys=[]
        for ft in fts:
            for k in ft.invs: keys.append(k)
        invbase={}
        off=0
        for ft in fts:
            invbase[ft.sig.vname]=(off,ft); off+=len(ft.invs)
        others=[]
        for er in res.errors:
            inv=None
            for b,_ in er['labels']:
                m=re.match(r'INV (\d+) ',b)
                if m:
                    ft=[x for x in fts if er['fn'] and (er['fn']==x.sig.vname or er['fn'].startswith(x.sig.vname+'_L'))]
                    if ft: inv=ft[0].invs[int(m.group(1))]
            if inv is not None and re.match(r'precondition not|assertion failed',er['msg']): bad.add(inv)
            else: others.append(er)
        if not bad or not res.json:
            o.failed=others if res.json else [{'msg':'verus produced no result'+(' within the time limit' if DEADLINE and time.time()>DEADLINE else ''),'labels':[],'fn':None,'text':'','rendered':res.raw[-3000:],'line':None}]
            break
        if verbose: print('dropping',len(bad),*(['; '.join(str(er['line'])+' '+(er['labels'][0][0] if er['labels'] else er['msg'])[:150] for er in res.errors)] if os.environ.get('SHOWDROP') else []))
        drop|=bad
    o.drop=sorted(drop)
    if cached and not(res.ok and res.verified>0) and not late():
        return verify_(prop,work,CONTRACTS,rlimit,threads,verbose,EngClass,unit_hook,smoke,cache=False)
    o.functions=[{'function':ft.fn.q,'at':f"{(ft.fn.file or '').replace(REPO+'/','')}:{ft.fn.line}",'contract':{'requires':ft.ct.requires,'ensures':([f'result == {ft.ct.pure}'] if ft.ct.pure else [])+ft.ct.ensures+[f'throws: {ft.ct.throws}']*bool(ft.ct.throws)},'loops':ft.loops,'obligations':ft.obs} for ft in fts]
    o.models=sorted(u.models); o.assumptions=sorted(u.assumptions); o.inlined=sorted(u.inlined)
    o.verus=res.json.get('verification-results',{}); o.times=res.json.get('times-ms',{})
    fts=[ft for ft in fts if not ft.ct.trusted]
    if res.ok and res.verified>0:
        o.status='proved'; o.discharged=o.obligations
        if smoke:
            sm=[(n,t) for ft in fts for n,t in ft.smoke]
            if sm:
                p2=f"{work}/{prop.ID}_smoke.rs"
                open(p2,'w').write(src.rstrip()[:-1]+'\n'+re.sub(r'^(pub proof fn smoke_)',r'#[verifier::spinoff_prover] \1','\n'.join(t for _,t in sm),flags=re.M)+'\n}')
                r2=run_verus(p2,work,rlimit,threads)
                if not r2.json: sm=[]
                bad={e['fn'] for e in r2.errors}
                vac=[n for n,_ in sm if n not in bad]
                o.solver+=r2.wall
                o.smoke={'probes':len(sm),'not_refutable':len(sm)-len(vac),'vacuous':vac}
                if any(e.get('code') for e in r2.errors): o.smoke={'probes':0,'note':'probe text rejected: '+r2.errors[0]['msg'][:200]}
                elif vac:
                    o.status='undecided'; o.detail=[f"vacuous contract (false is provable): {', '.join(vac)}"]; o.discharged=0
    else:
        rustc=[e for e in o.failed if e.get('code')]
        vir=[] if rustc else [e for e in o.failed if re.search(r'^(postcondition not satisfied|precondition not satisfied|assertion failed|decreases not satisfied|could not prove termination)|not satisfied',e['msg'])]
        rl=[e for e in o.failed if 'rlimit' in e['msg'] or 'resource limit' in e['msg'].lower()]
        if rl and len(rl)==len(o.failed): o.status='timeout'
        elif vir: o.status='failed'
        else: o.status='undecided'; o.detail=[f"verifier rejected the generated text: {e['msg']} | {e['text']}" for e in o.failed[:5]]
        o.discharged=max(0,o.obligations-len(o.failed))
    return o
