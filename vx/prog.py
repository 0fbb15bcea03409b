"""Program model: links the JSON dumps of several translation units."""
import json, re

class Ty:
    __slots__=('k','bits','sg','c','to','n','args','key','rec','rv','len','s','tu','idx','_vt')
    def __repr__(self): return f"Ty({self.s})"

class Rec:
    __slots__=('q','key','fields','bases','mine','lam','poly','abstract','tu','idx','file','line')
    def __repr__(self): return f"Rec({self.key})"

class Fn:
    __slots__=('tu','idx','q','name','op','file','line','endline','mine','rt','pt','variadic','internal','ta','noexcept','m','rec','static',
        'const','virtual','pure','overrides','kind','copy','move','dflt','defaulted','deleted','trivial','implicit','mg','params','body','inits','builtin','_d')
    def __repr__(self): return f"Fn({self.q}:{self.line})"
    @property
    def has_body(self): return self.body is not None

class TU:
    def __init__(self, name, d):
        self.name=name; self.d=d
        self.types=[None]*len(d['types']); self.recs=[None]*len(d['records']); self.fns=[None]*len(d['fns'])
        self.globals={g['id']:g for g in d['globals']}

class Prog:
    def __init__(self):
        self.tus=[]; self.by_mg={}; self.by_q={}; self.glob_by_mg={}
        self.recs_by_key={}
    def load(self, name, path):
        with open(path) as f: d=json.load(f)
        tu=TU(name,d); self.tus.append(tu)
        for i,fd in enumerate(d['fns']):
            f=self.fn(tu,i)
            if f.has_body:
                if f.mg and not f.internal: self.by_mg.setdefault(f.mg,f)
                self.by_q.setdefault(f.q,[]).append(f)
        for g in d['globals']:
            if 'init' in g and not g.get('internal'): self.glob_by_mg.setdefault(g['mg'],(tu,g))
        for i,r in enumerate(d['records']):
            if r:
                rr=self.rec(tu,i)
                if rr.fields is not None and not rr.lam: self.recs_by_key.setdefault(rr.key,rr)
        return tu
    def ty(self, tu, i):
        t=tu.types[i]
        if t is not None: return t
        d=tu.d['types'][i]
        t=Ty(); tu.types[i]=t
        t.tu=tu; t.idx=i; t._vt=None
        t.k=d['k']; t.bits=d.get('bits'); t.sg=d.get('sg'); t.c=d.get('c',False); t.n=re.sub(r'^const ','',d['n']) if d['k']=='int' and 'n' in d else d.get('n'); t.key=d.get('key')
        t.rv=d.get('rv',False); t.s=d.get('s'); t.len=None
        if t.k=='arr': t.len=d.get('n'); t.n=None
        t.to=self.ty(tu,d['to']) if 'to' in d else None
        t.rec=d.get('rec')
        def conv(a):
            r=[]
            for x in a:
                if 't' in x: r.append(self.ty(tu,x['t']))
                elif 'i' in x: r.append(int(x['i']))
                elif 'pack' in x: r.extend(conv(x['pack']))
                else: r.append(None)
            return r
        t.args=conv(d['args']) if 'args' in d else None
        if t.k=='void': t.s='void'
        return t
    def rec(self, tu, i):
        r=tu.recs[i]
        if r is not None: return r
        d=tu.d['records'][i]
        r=Rec(); tu.recs[i]=r
        r.tu=tu; r.idx=i; r.q=d['q']; r.key=d['key']; r.mine=d.get('mine',False); r.lam=d.get('lambda',False)
        r.poly=d.get('poly',False); r.abstract=d.get('abstract',False); r.file=d.get('file'); r.line=d.get('line')
        r.fields=[(f['n'],self.ty(tu,f['t']),f.get('init')) for f in d['fields']] if 'fields' in d else None
        r.bases=[self.ty(tu,b) for b in d.get('bases',[])]
        return r
    def fn(self, tu, i):
        f=tu.fns[i]
        if f is not None: return f
        d=tu.d['fns'][i]
        f=Fn(); tu.fns[i]=f; f._d=d
        f.tu=tu; f.idx=i
        for a in ('q','name','op','file','line','endline','kind','mg','body','inits','builtin'): setattr(f,a,d.get(a))
        for a in ('mine','variadic','internal','noexcept','m','static','const','virtual','pure','copy','move','dflt','defaulted','deleted','trivial','implicit'):
            setattr(f,a,d.get(a,False))
        f.q=re.sub(r'<.*>','',f.q) if f.q.count('<')==f.q.count('>') and 'operator' not in f.q else strip_targs(f.q)
        f.rt=self.ty(tu,d['rt']); f.pt=[self.ty(tu,x) for x in d['pt']]
        f.rec=self.rec(tu,d['rec']) if 'rec' in d else None
        f.overrides=[self.fn(tu,x) for x in d.get('overrides',[])]
        f.params=d.get('params')
        def conv(a):
            r=[]
            for x in a:
                if 't' in x: r.append(self.ty(tu,x['t']))
                elif 'i' in x: r.append(int(x['i']))
                elif 'pack' in x: r.extend(conv(x['pack']))
                else: r.append(None)
            return r
        f.ta=conv(d['ta']) if 'ta' in d else None
        return f
    def resolve(self, f):
        if f.has_body or not f.mg: return f
        return self.by_mg.get(f.mg,f)

def strip_targs(q):
    out='';d=0;i=0
    while i<len(q):
        if q.startswith('operator',i) and d==0:
            out+=q[i:]; break
        c=q[i]
        if c=='<': d+=1
        elif c=='>': d-=1
        elif d==0: out+=c
        i+=1
    return out
