"""The translator: path-wise symbolic execution of C++ ASTs, emitted as Verus proof functions."""
import re, itertools, sys
from .core import *
from .prog import *

PROMO_U64=(0,2**64-1)
def trange(t):
    if t.k=='bool': return (0,1)
    if t.k in('int','enum'):
        b=t.bits; return (-(1<<(b-1)),(1<<(b-1))-1) if t.sg else (0,(1<<b)-1)
    return None
def lit(n): return str(n) if n>=0 else f"(-{-n})"
def paren(e): return e if atomic(e) or (e.startswith('(') and e.endswith(')') and balanced(e[1:-1])) or re.fullmatch(r'[A-Za-z_][\w.]*(\([^()]*\))?',e) else f"({e})"
KW={'type','ref','move','match','mod','fn','impl','in','loop','pub','self','trait','use','where','as','box','dyn','final','override','priv','typeof','unsized','yield','let','mut','spec','proof','exec','tracked','ghost','open','closed','requires','ensures','choose','forall','exists','is','has','decreases','by','global','super','crate','async','await','abstract','become','do','macro','virtual','unsafe','extern','static','struct','enum','const','break','continue','if','else','while','for','return','true','false'}
def fsan(n): return n+'_' if n in KW else n
def san(s): return re.sub(r'_+','_',re.sub(r'[^A-Za-z0-9_]','_',s)).strip('_')

class Contract:
    def __init__(s,name,q,params,requires=(),ensures=(),dec=None,ret=None,sig=None,invs=(),hints=(),endhints=(),measure=(),loophints=(),
                 size_req=True,throws=False,outs=None,where=None,trusted=False,ghost=(),axioms=(),optional=False,pure=None,virt=False,split=None,kinds=None,ifpresent=False):
        s.name=name; s.q=q; s.params=params; s.requires=list(requires); s.ensures=list(ensures); s.dec=dec; s.ret=ret; s.sig=sig
        s.invs=list(invs); s.hints=list(hints); s.endhints=list(endhints); s.measure=list(measure); s.loophints=list(loophints)
        s.size_req=size_req; s.throws=throws; s.where=where; s.trusted=trusted; s.outs=outs; s.axioms=list(axioms); s.optional=optional; s.pure=pure; s.virt=virt; s.split=split; s.kinds=kinds or {}; s.ifpresent=ifpresent; s.ghost=list(ghost)

class LoopFn:
    def __init__(s,owner,name): s.owner=owner; s.name=name

class Unit:
    """One Verus crate: the functions of one property (or group)."""
    def __init__(s,prog,contracts):
        s.prog=prog; s.contracts={}
        for c in contracts: s.contracts.setdefault(c.q,[]).append(c)
        s.structs=prog.__dict__.setdefault('structs',{}); s.extra={}; s.inlined=set(); s.assumptions=set(); s.models=set()
        s.inprog=set(); s.alias={}; s.special={}   # record name -> handler for storage types (Tier B)
        s.fnsigs={}
        s.unsup=[]
    # ---- storage types
    def vt(s,t):
        if t._vt is not None: return t._vt or None
        t._vt=''  # recursion guard: not representable
        r=s._vt(t); t._vt=r or ''
        return r
    def _vt(s,t):
        if t.k in ('int','enum'):
            if t.k=='int' and t.bits==8 and t.n=='char': return 'u8'
            return ('i' if t.sg else 'u')+str(t.bits)
        if t.k=='bool': return 'bool'
        if t.k=='arr' and t.len is not None:
            e=s.vt(t.to); return f"Seq<{e}>" if e else None
        if t.k=='ptr' and getattr(s,'rawptr',False): return 'int'  # addresses, not followed; 0 is null
        if t.k=='ptr' and getattr(s,'ptrvt',None): return s.ptrvt(t)
        if t.k!='rec': return None
        q=stdq(t.n)
        for h in s.special.values():
            r=h(s,t)
            if r: return r
        if q in ('std::basic_string','std::basic_stringstream','std::basic_ostringstream','std::basic_ostream','std::basic_iostream'): return 'Seq<u8>'
        if q in ('std::vector','std::deque','std::list','std::initializer_list','std::array'):
            e=s.vt(t.args[0]); return f"Seq<{e}>" if e else None
        if q in ('std::pair','std::tuple'):
            l=[s.vt(a) for a in t.args]
            return f"({', '.join(l)}{',' if len(l)==1 else ''})" if all(l) else None
        if q=='std::unique_ptr':
            e=s.vt(t.args[0]); return f"Option<Box<{e}>>" if e else None
        if q=='std::bitset': return 'Seq<bool>'
        if q in ('std::map','std::unordered_map'):
            k=s.vt(t.args[0]); v=s.vt(t.args[1]); return f"Seq<({k}, {v})>" if k and v else None  # entries with distinct keys; see the map model in stl.py
        if q in ('std::set','std::unordered_set'):
            k=s.vt(t.args[0]); return f"Set<{k}>" if k else None
        if q.startswith('std::') or q.startswith('__gnu'): return None
        fl=s.fields(t)
        if fl is None: return None
        if not fl:
            b=s.stlbase(t)
            if b: return s.vt(b)
        name=s.alias.get(t.key) or 'S_'+san(t.key if t.key else t.n)
        if name in s.inprog: return name  # recursive type
        s.inprog.add(name)
        l=[]
        try:
            for n,ft in fl:
                e=s.vt(ft)
                if not e: return None
                l.append((n,e))
        finally: s.inprog.discard(name)
        s.structs[name]=l
        return name
    def pairty(s,t):
        """element type of a map"""
        p=Ty(); p.k='rec'; p.n='std::pair'; p.s=f"pair<const {t.args[0].s}, {t.args[1].s}>"; p.key=p.s; p.rec=None; p.tu=t.tu; p.args=t.args[:2]; p._vt=None; p.c=False
        return p
    def recof(s,t):
        r=s.prog.rec(t.tu,t.rec)
        if r.fields is None: r=s.prog.recs_by_key.get(r.key,r)
        return r
    def stlbase(s,t):
        r=s.recof(t)
        for b in r.bases:
            if b.k=='rec' and stdq(b.n).startswith('std::'): return b
            x=s.stlbase(b) if b.k=='rec' else None
            if x: return x
        return None
    def fields(s,t):
        """all (name, Ty) fields incl. bases, or None"""
        r=s.recof(t)
        if r.fields is None: return None
        out=[]
        for b in r.bases:
            if b.k=='rec' and not stdq(b.n).startswith('std::'):
                x=s.fields(b)
                if x is None: return None
                out+=x
        out+=[(n,ft) for n,ft,_ in r.fields]
        return out
    def p2table(s,n,w):
        """spec fn: constant n >> variable shift (0..w-1)"""
        nm=f"shr_{n}_{w}"
        body=''.join(f"if s == {i} {{ {n>>i} }} else " for i in range(w-1))+f"{{ {n>>(w-1)} }}"
        s.extra[nm]=f"pub open spec fn {nm}(s: int) -> int {{ {body} }}"
        return nm

def dump(v):
    if v is None: return 'None'
    if isinstance(v,S): return ('S',v.e,v.vt,v.byte,repr(v.rng))
    if isinstance(v,Obj): return ('O',)+tuple((k,dump(v.f[k])) for k in sorted(v.f))
    if isinstance(v,Void): return 'Void'
    if isinstance(v,Ref) and v.place is not None: return ('R',repr(v.place))
    if isinstance(v,Ptr) and v.place is not None: return ('P',repr(v.place),v.null)
    return ('id',id(v))
def alpha_same(a,b):
    """equal up to the fresh numbers of the names they bind"""
    tk=lambda x: re.findall(r'\w+|[^\w\s]',repr(x))
    ta,tb=tk(a),tk(b)
    if len(ta)!=len(tb): return False
    def bound(n,o):
        if isinstance(n,(tuple,list)):
            if len(n)>1 and n[0] in('let','call') and isinstance(n[1],str): o.add(n[1])
            for x in n: bound(x,o)
        return o
    ba,bb=bound(a[0],set()),bound(b[0],set())
    f={};g={}
    for x,y in zip(ta,tb):
        if x==y and x not in ba and y not in bb: continue
        if x not in ba or y not in bb or f.setdefault(x,y)!=y or g.setdefault(y,x)!=x: return False
    return True
class Eng:
    """Translation of one function under contract."""
    MAXPATHS=6000
    merge_calls=False
    def __init__(s,unit,fn,contract):
        s.u=unit; s.P=unit.prog; s.fn=fn; s.ct=contract
        s.n=0; s.ncell=0; s.ends=[]; s.loops=[]; s.dry=0; s.atoms={}
        s.name='f_'+contract.name; s.cmplog=[]
        s.obcount=0; s.npaths=0
        s.lits={}; s.pure=0
    # ---------- small helpers
    def fresh(s,h='v'): s.n+=1; return f"{san(h)}_{s.n}"
    def newcell(s,st,v,h='t'):
        s.ncell+=1; cid=f"{h}#{s.ncell}"
        return st.cell(cid,v),Place(cid)
    def where(s,st,e=None):
        l=e.get('l') if isinstance(e,dict) else None
        f=st.stack[-1]
        fl=(f.file or '').replace('/repo/','')
        return f"{fl}:{l if l else f.line} in {f.q}"
    def ob(s,st,cond,label,e=None):
        if cond=='true' or cond in st.facts: return st
        st=st.add('pf',f"assert({cond});",f"{label} @ {s.where(st,e)}")
        return st.fact(cond)
    def let(s,st,e,vt,h='v'):
        if atomic(e): return st,e
        n=s.fresh(h)
        return st.add('let',n,vt,e),n
    def letS(s,st,v,h='v'):
        if isinstance(v,S) and not atomic(v.e) and len(v.e)>24:
            st,e=s.let(st,v.e,v.vt,h)
            v=S(e,v.vt,v.ty,v.c,v.rng,v.tz,v.byte)
        if isinstance(v,S) and v.byte and not atomic(v.byte) and len(v.byte)>24:
            st,b=s.let(st,v.byte,'int',h+'b')
            v=S(f"sc({b})",'int',v.ty,v.c,v.rng,v.tz,b)
        return st,v
    def branch(s,st,c):
        if c=='true' or c in st.facts: yield st,True; return
        if c=='false' or neg(c) in st.facts: yield st,False; return
        bid=object()
        yield st.add('br',bid,c,True).fact(c),True
        yield st.add('br',bid,c,False).fact(neg(c)),False
    def vt(s,t):
        r=s.u.vt(t)
        if not r: raise Unsupported(f"type without storage representation: {t.s}")
        return r
    # ---------- storage <-> value
    def ischar(s,t): return t.k=='int' and t.bits==8 and t.n=='char'
    def lift(s,e,t):
        if t.k in('int','enum'):
            if s.ischar(t):
                b=f"({e} as int)"; return S(f"sc({b})",'int',t,rng=(-128,127),byte=b)
            return S(f"({e} as int)",'int',t,rng=trange(t))
        if t.k=='bool': return S(e,'bool',t)
        return S(e,s.vt(t),t)
    def lower(s,v,t):
        if t.k in('int','enum'):
            if not isinstance(v,S): raise Unsupported(f"scalar expected, got {v}")
            m=re.fullmatch(r'\((\w+) as int\)',v.byte if s.ischar(t) and v.byte else v.e)
            vt=s.vt(t)
            if m and s.atoms.get(m.group(1))==vt: return m.group(1)
            if s.ischar(t):
                if v.byte: return f"({v.byte} as u8)"
                if v.c is not None: return f"{v.c%256}u8"
                return f"(uc({v.e}) as u8)"
            if v.vt=='bool': return f"(if {v.e} {{ 1{vt} }} else {{ 0{vt} }})"
            if v.c is not None: return f"{v.c}{vt}" if v.c>=0 else f"({v.c}{vt})"
            return f"({v.e} as {vt})"
        if t.k=='bool': return v.e
        if isinstance(v,S): return v.e
        if isinstance(v,Obj): return s.pack(v,t)
        if isinstance(v,Lst):
            return f"seq![{', '.join(s.lower(x,v.ty) for x in v.vs)}]"
        if v is UNINIT: return f"uninit::<{s.vt(t)}>()"
        if isinstance(v,Ptr) and v.null=='true' and s.vt(t).startswith('Option'): return 'None'
        if isinstance(v,Ptr) and v.null=='true' and t.k=='ptr': return '0'
        raise Unsupported(f"cannot store {type(v).__name__} as {t.s}")
    def pack(s,v,t):
        vt=s.vt(t)
        q=stdq(t.n) if t.k=='rec' else ''
        if q in('std::pair','std::tuple'):
            names=['first','second'] if q=='std::pair' else [str(i) for i in range(len(t.args))]
            return '('+', '.join(s.lower(v.f[n],a) for n,a in zip(names,t.args))+')'
        h=getattr(s,'pack_special',None)
        if h:
            r=h(v,t)
            if r: return r
        if vt in s.u.structs:
            return f"{vt} {{ {', '.join(f'{fsan(n)}: '+s.lower(v.f.get(n),ft) for n,ft in s.u.fields(t))} }}"
        raise Unsupported(f"pack {t.s} as {vt}")
    def valS(s,v,t):
        """value as single S"""
        if isinstance(v,S): return v
        return S(s.lower(v,t),s.vt(t),t)
    # ---------- places
    def step(s,st,v,p,place=None):
        k=p[0]
        if isinstance(v,Ref): raise Unsupported('step through reference')
        if v is UNINIT: raise Unsupported('read of a part of an uninitialised object')
        if k=='f':
            if isinstance(v,Obj):
                if p[1] not in v.f: raise Unsupported(f"field {p[1]}")
                return v.f[p[1]]
            if isinstance(v,S):
                r=s.field_of(v,p[1])
                if r is not None: return r
        elif k=='i':
            if isinstance(v,S) and v.vt.startswith('Seq<'):
                et=s.elemty(v.ty)
                return s.lift(f"{paren(v.e)}[{p[1]}]",et)
            if isinstance(v,Lst):
                if p[1].isdigit(): return v.vs[int(p[1])]
                v=S(s.lower(v,None),f"Seq<{s.vt(v.ty)}>",None); 
                raise Unsupported('symbolic index into literal')
        elif k=='ic':  # character of a C string view (index may be the terminator)
            et=s.elemty(v.ty)
            b=f"cat({v.e}, {p[1]})"
            return S(f"sc({b})",'int',et,rng=(-128,127),byte=b)
        elif k=='uc':
            return S(v.byte if v.byte else f"uc({v.e})",'int',p[1],rng=(0,255))
        elif k=='sc8':
            b=v.byte or v.e if not(v.rng and v.rng[0]<0) or v.byte else f"uc({v.e})"
            return S(f"sc({b})",'int',p[1],rng=(-128,127),byte=b)
        elif k=='d':
            if isinstance(v,S): return s.lift(f"(*{paren(v.e)}->Some_0)",p[1])
        r=s.step_special(st,v,p)
        if r is not None: return r
        raise Unsupported(f"step {p} on {v}")
    def step_special(s,st,v,p): return None
    def upd_special(s,st,v,p,nv): return None
    def field_of(s,v,f):
        t=v.ty
        if t is None: return None
        if t.k=='rec' and stdq(t.n)=='std::pair':
            i=['first','second'].index(f); return s.lift(f"{paren(v.e)}.{i}",t.args[i])
        if t.k=='rec' and stdq(t.n)=='std::tuple':
            return s.lift(f"{paren(v.e)}.{f}",t.args[int(f)])
        fl=s.u.fields(t)
        for n,ft in fl or []:
            if n==f: return s.lift(f"{paren(v.e)}.{fsan(f)}",ft)
        return None
    def elemty(s,t):
        if t is None: raise Unsupported('element of untyped sequence')
        if t.k=='arr': return t.to
        q=stdq(t.n)
        if q.startswith('std::basic_'): 
            return t.args[0]
        if q in('std::vector','std::deque','std::list','std::initializer_list','std::array','std::set','std::unordered_set'): return t.args[0]
        if q in('std::map','std::unordered_map'): return s.u.pairty(t)
        b=s.u.stlbase(t)
        if b: return s.elemty(b)
        r=s.elem_special(t)
        if r is not None: return r
        raise Unsupported(f"element type of {t.s}")
    def elem_special(s,t): return None
    def rd(s,st,place):
        if place.cid not in st.cells: raise Unsupported(f"dangling read {place}")
        v=st.cells[place.cid]
        for p in place.path: v=s.step(st,v,p,place)
        return v
    def wr(s,st,place,nv):
        """returns st"""
        v=st.cells.get(place.cid)
        st,v2=s.upd(st,v,place.path,nv)
        return st.cell(place.cid,v2)
    def upd(s,st,v,path,nv):
        if not path:
            if isinstance(nv,S): st,nv=s.letS(st,nv)
            return st,nv
        p=path[0]
        if isinstance(v,Obj) and p[0]=='f':
            if len(path)==1: sub=None
            else: sub=v.f[p[1]]
            st,sv=s.upd(st,sub,path[1:],nv)
            f=dict(v.f); f[p[1]]=sv
            return st,Obj(v.ty,f)
        if isinstance(v,S):
            if len(path)>1: cur=s.step(st,v,p)
            else: cur=None
            st,sv=s.upd(st,cur,path[1:],nv)
            if p[0]=='i':
                st,e=s.let(st,f"{paren(v.e)}.update({p[1]}, {s.lower(sv,s.elemty(v.ty))})",v.vt)
                return st,S(e,v.vt,v.ty)
            if p[0]=='d':
                st,e=s.let(st,f"Some(Box::new({s.lower(sv,p[1])}))" if False else f"mkbox({s.lower(sv,p[1])})",v.vt)
                return st,S(e,v.vt,v.ty)
            if p[0]=='f':
                t=v.ty
                if stdq(t.n) in('std::pair','std::tuple'):
                    names=['first','second'] if stdq(t.n)=='std::pair' else [str(i) for i in range(len(t.args))]
                    parts=[s.lower(sv,a) if n==p[1] else f"{paren(v.e)}.{i}" for i,(n,a) in enumerate(zip(names,t.args))]
                    st,e=s.let(st,'('+', '.join(parts)+')',v.vt); return st,S(e,v.vt,v.ty)
                for n,ft in s.u.fields(t) or []:
                    if n==p[1]:
                        st,e=s.let(st,f"{v.vt} {{ {fsan(n)}: {s.lower(sv,ft)}, ..{v.e} }}",v.vt)
                        return st,S(e,v.vt,v.ty)
            r=s.upd_special(st,v,p,sv)
            if r is not None: return r
        raise Unsupported(f"write {path} into {v}")
    def rdref(s,st,v):
        """rvalue of an evaluated expression"""
        if isinstance(v,Ref): return s.rd(st,v.place)
        return v
    # ---------- integers
    def mkint(s,e,ty,c=None,rng=None,tz=0):
        return S(e,'int',ty,c=c,rng=rng if rng else trange(ty),tz=tz)
    def const(s,n,ty): 
        tz=0
        if n: 
            while n>>tz&1==0: tz+=1
        else: tz=64
        return S(lit(n),'int',ty,c=n,rng=(n,n),tz=tz)
    def asint(s,v,ty=None):
        if isinstance(v,S) and v.vt=='bool':
            if v.e in('true','false'): return s.const(1 if v.e=='true' else 0,ty)
            return S(ite(v.e,'1int','0int') ,'int',ty,rng=(0,1))
        if not isinstance(v,S) or v.vt!='int': raise Unsupported(f"integer expected: {v}")
        return v
    def cast_int(s,v,ty):
        if ty.k=='bool': return s.tobool(v)
        v=s.asint(v,ty)
        lo,hi=trange(ty)
        r=v.rng or (trange(v.ty) if v.ty else None)
        if v.c is not None:
            n=v.c; m=1<<ty.bits
            n%=m
            if ty.sg and n>=m//2: n-=m
            return s.const(n,ty)
        if r and lo<=r[0] and r[1]<=hi:
            return S(v.e,'int',ty,rng=r,tz=v.tz,byte=v.byte if ty.bits==8 or v.byte else None)
        if ty.bits==8 and v.byte:
            return S(v.byte,'int',ty,rng=(0,255)) if not ty.sg else S(f"sc({v.byte})",'int',ty,rng=(-128,127),byte=v.byte)
        if not ty.sg:
            if r and r[0]>=-(1<<ty.bits) and r[1]<=hi:
                return S(f"(if {v.e} < 0 {{ {v.e} + {1<<ty.bits} }} else {{ {v.e} }})",'int',ty,rng=(lo,hi))
            e=f"({paren(v.e)} % {1<<ty.bits})"
            if ty.bits==8: return S(e,'int',ty,rng=(0,255))
            return S(e,'int',ty,rng=(lo,hi),tz=v.tz)
        if ty.bits==8:
            b=v.e if r and r[0]>=0 and r[1]<=255 else f"({paren(v.e)} % 256)"
            return S(f"sc({b})",'int',ty,rng=(-128,127),byte=b)
        return S(f"swrap{ty.bits}({v.e})",'int',ty,rng=(lo,hi))
    def tobool(s,v):
        if isinstance(v,S) and v.vt=='bool': return v
        if isinstance(v,S) and v.vt=='int':
            if v.c is not None: return S('true' if v.c else 'false','bool')
            s.cmplog.append(('bool',v,None))
            if v.byte: return S(f"({v.byte} != 0)",'bool')
            return S(f"({v.e} != 0)",'bool')
        if isinstance(v,Ptr): return S(neg(v.null),'bool')
        if isinstance(v,It): return S('true','bool')
        if isinstance(v,S) and v.vt.startswith('Option<'): return S(f"({v.e} is Some)",'bool')
        raise Unsupported(f"bool of {v}")
    def maskblocks(s,m):
        r=[];i=0
        while m>>i:
            if m>>i&1:
                j=i
                while m>>j&1: j+=1
                r.append((i,j)); i=j
            else: i+=1
        return r
    def andmask(s,e,m,rng=None):
        """e & m for constant m >= 0 (exact for any integer e in two's complement)"""
        if m==0: return '0'
        parts=[]
        for lo,hi in s.maskblocks(m):
            x=paren(e)
            if lo: x=f"({x} / {1<<lo})"
            if not(rng and rng[0]>=0 and rng[1]<(1<<hi)): x=f"({x} % {1<<(hi-lo)})"
            if lo: x=f"({x} * {1<<lo})"
            parts.append(x)
        return parts[0] if len(parts)==1 else '('+' + '.join(parts)+')'
    def arith(s,st,op,a,b,ty,e=None):
        """binary integer operation at type ty (operands already converted)"""
        a=s.asint(a,ty); b=s.asint(b,ty)
        lo,hi=trange(ty)
        ra=a.rng or trange(ty); rb=b.rng or trange(ty)
        if op in('+','-','*'):
            if a.c is not None and b.c is not None:
                n={'+':a.c+b.c,'-':a.c-b.c,'*':a.c*b.c}[op]
                if lo<=n<=hi: return st,s.const(n,ty)
                if not ty.sg: return st,s.const(n%(1<<ty.bits),ty)
            if op=='+': r=(ra[0]+rb[0],ra[1]+rb[1])
            elif op=='-': r=(ra[0]-rb[1],ra[1]-rb[0])
            else:
                c=[x*y for x in ra for y in rb]; r=(min(c),max(c))
            raw=f"({paren(a.e)} {op} {paren(b.e)})"
            if op=='+' and b.c==0: raw=a.e
            if op=='+' and a.c==0: raw=b.e
            if op=='-' and b.c==0: raw=a.e
            if lo<=r[0] and r[1]<=hi: return st,S(raw,'int',ty,rng=r)
            if ty.sg:
                st,raw=s.let(st,raw,'int')
                st=s.ob(st,f"{lit(lo)} <= {raw} <= {hi}",f"signed overflow in {op}",e)
                return st,S(raw,'int',ty,rng=(max(lo,r[0]),min(hi,r[1])))
            m=1<<ty.bits
            if op=='+': ex=f"wadd({paren(a.e)}, {paren(b.e)}, {m})"
            elif op=='-': ex=f"wsub({paren(a.e)}, {paren(b.e)}, {m})"
            else: ex=f"({raw} % {m})"
            return st,S(ex,'int',ty,rng=(lo,hi))
        if op in('/','%'):
            if b.c is None: st=s.ob(st,f"{b.e} != 0","division by zero",e)
            elif b.c==0: st=s.ob(st,"false","division by zero",e)
            if ra[0]>=0 and rb[0]>=0:
                ex=f"({paren(a.e)} {op} {paren(b.e)})"
                r=(0,ra[1]) if op=='/' else (0,min(ra[1],rb[1]-1 if rb[1]>0 else 0))
                return st,S(ex,'int',ty,rng=r)
            st=s.ob(st,neg(f"{a.e} == {lit(lo)} && {b.e} == -1"),"division overflow",e)
            return st,S(f"{'tdiv' if op=='/' else 'tmod'}({a.e}, {b.e})",'int',ty,rng=(lo,hi))
        if op in('&','|','^'):
            if b.c is None and a.c is not None: a,b=b,a; ra,rb=rb,ra
            if a.c is not None and b.c is not None:
                n={'&':a.c&b.c,'|':a.c|b.c,'^':a.c^b.c}[op]; return st,s.const(n,ty)
            if b.c is not None and b.c>=0:
                m=b.c
                r=(0,min(m,ra[1]) if ra[0]>=0 else m)
                x=s.andmask(a.e,m,ra)
                tz=0
                if m:
                    while m>>tz&1==0: tz+=1
                if op=='&': return st,S(x,'int',ty,rng=r,tz=tz)
                if ra[0]>=0:
                    if op=='|' or op=='^':
                        if (ra[1]<(1<<tz)) or (m<(1<<a.tz)): return st,S(f"({paren(a.e)} + {m})",'int',ty,rng=(m+ra[0],m+ra[1]),tz=min(tz,a.tz))
                        st,ae=s.let(st,a.e,'int')
                        x=s.andmask(ae,m,ra)
                        k=1 if op=='|' else 2
                        bl=1<<max(ra[1].bit_length(),m.bit_length())
                        return st,S(f"({ae} + {m} - {k if k>1 else ''}{' * ' if k>1 else ''}{x})",'int',ty,rng=(0,bl-1))
            if op in('|','^') and ra[0]>=0 and rb[0]>=0:
                if rb[1]<(1<<a.tz): return st,S(f"({paren(a.e)} + {paren(b.e)})",'int',ty,rng=(ra[0]+rb[0],ra[1]+rb[1]),tz=min(a.tz,b.tz))
                if ra[1]<(1<<b.tz): return st,S(f"({paren(a.e)} + {paren(b.e)})",'int',ty,rng=(ra[0]+rb[0],ra[1]+rb[1]),tz=min(a.tz,b.tz))
                if a.c==0: return st,b
                if b.c==0: return st,a
            if ra[0]>=0 and rb[0]>=0:
                w='u64'
                return st,S(f"((({a.e}) as {w}) {op} (({b.e}) as {w})) as int",'int',ty,rng=(0,(1<<max(ra[1].bit_length(),rb[1].bit_length()))-1))
            raise Unsupported(f"bit operation {op} on signed operands")
        if op in('<<','>>'):
            w=ty.bits
            if b.c is None: st=s.ob(st,f"0 <= {b.e} < {w}","shift amount",e)
            elif not 0<=b.c<w: st=s.ob(st,"false","shift amount",e)
            if b.c is not None:
                k=b.c
                if op=='>>':
                    return st,S(f"({paren(a.e)} / {1<<k})" if k else a.e,'int',ty,rng=(ra[0]>>k,ra[1]>>k),tz=max(0,a.tz-k))
                raw=f"({paren(a.e)} * {1<<k})"; r=(ra[0]<<k,ra[1]<<k)
                if lo<=r[0] and r[1]<=hi and r[0]>=0: return st,S(raw,'int',ty,rng=r,tz=a.tz+k)
                if ty.sg:
                    st=s.ob(st,f"0 <= {raw} <= {hi}","signed left shift overflow",e); return st,S(raw,'int',ty,rng=(0,hi),tz=a.tz+k)
                return st,S(f"({raw} % {1<<w})",'int',ty,rng=(lo,hi),tz=a.tz+k)
            if a.c is not None and a.c>=0 and op=='>>':
                f=s.u.p2table(a.c,w); return st,S(f"{f}({b.e})",'int',ty,rng=(0,a.c))
            if op=='>>': return st,S(f"({paren(a.e)} / p2({b.e}))",'int',ty,rng=(min(0,ra[0]),max(0,ra[1])))
            if not ty.sg: return st,S(f"(({paren(a.e)} * p2({b.e})) % {1<<w})",'int',ty,rng=(lo,hi))
            raw=f"({paren(a.e)} * p2({b.e}))"
            st=s.ob(st,f"0 <= {raw} <= {hi}","signed left shift overflow",e)
            return st,S(raw,'int',ty,rng=(0,hi))
        raise Unsupported('arith '+op)
    def compare(s,st,op,a,b,e=None):
        if isinstance(a,S) and isinstance(b,S) and a.vt in('int','bool') and b.vt in('int','bool'):
            if a.vt=='bool' and b.vt=='bool' and op in('==','!='):
                return st,S(f"({a.e} {op} {b.e})",'bool')
            a=s.asint(a); b=s.asint(b)
            if a.c is not None and b.c is not None:
                r={'==':a.c==b.c,'!=':a.c!=b.c,'<':a.c<b.c,'<=':a.c<=b.c,'>':a.c>b.c,'>=':a.c>=b.c}[op]
                return st,S('true' if r else 'false','bool')
            s.cmplog.append((op,a,b))
            if op in('==','!='):
                if a.byte and b.c is not None and -128<=b.c<=127: return st,S(f"({a.byte} {op} {b.c%256})",'bool')
                if b.byte and a.c is not None and -128<=a.c<=127: return st,S(f"({b.byte} {op} {a.c%256})",'bool')
                if a.byte and b.byte: return st,S(f"({a.byte} {op} {b.byte})",'bool')
            ra=a.rng; rb=b.rng
            if ra and rb:
                if op=='<' and ra[1]<rb[0] or op=='<=' and ra[1]<=rb[0] or op=='>' and ra[0]>rb[1] or op=='>=' and ra[0]>=rb[1]: return st,S('true','bool')
                if op=='<' and ra[0]>=rb[1] or op=='<=' and ra[0]>rb[1] or op=='>' and ra[1]<=rb[0] or op=='>=' and ra[1]<rb[0]: return st,S('false','bool')
            return st,S(f"({paren(a.e)} {op} {paren(b.e)})",'bool')
        if isinstance(a,It) and isinstance(b,It):
            if a.cont!=b.cont: raise Unsupported(f"comparison of iterators into different containers {a} {b}")
            if a.kind=='rev':
                if op in('<','>','<=','>='): raise Unsupported('rev compare')
            for x,y in((a,b),(b,a)):
                fd=getattr(x,'found',None)
                if fd and fd[0]==y.idx.e and op in('==','!='): return st,S(fd[1] if op=='!=' else f"!{fd[1]}",'bool')
            s.cmplog.append((op+'it',a,b))
            if a.idx.c is not None and b.idx.c is not None: return s.compare(st,op,a.idx,b.idx)
            if a.idx.e==b.idx.e and op in('==','!='): return st,S('true' if op=='==' else 'false','bool')
            return st,S(f"({paren(a.idx.e)} {op} {paren(b.idx.e)})",'bool')
        if op in('==','!='):
            pa=a.null if isinstance(a,Ptr) else ('false' if isinstance(a,It) else None)
            pb=b.null if isinstance(b,Ptr) else ('false' if isinstance(b,It) else None)
            if pa is not None and pb is not None:
                if pa=='true': c=pb
                elif pb=='true': c=pa
                else:
                    same=s.sameplace(st,a,b)
                    c=disj(conj(pa,pb),conj(conj(neg(pa),neg(pb)),same))
                return st,S(c if op=='==' else neg(c),'bool')
            raw=lambda x: isinstance(x,S) and x.vt=='int' and x.ty is not None and x.ty.k=='ptr'
            if isinstance(a,Ptr) and a.null=='true' and raw(b): a,b=b,a
            if raw(a) and isinstance(b,Ptr) and b.null=='true': return st,S(f"({paren(a.e)} {op} 0)",'bool')
            if raw(a) and raw(b): return st,S(f"({paren(a.e)} {op} {paren(b.e)})",'bool')
            if isinstance(a,Ptr) and a.null=='true' and isinstance(b,S) and b.vt.startswith('Option<'): a,b=b,a
            if isinstance(b,Ptr) and b.null=='true' and isinstance(a,S) and a.vt.startswith('Option<'):
                return st,S(f"({a.e} is {'None' if op=='==' else 'Some'})",'bool')
        raise Unsupported(f"comparison {op} of {a} and {b}")
    def sameplace(s,st,a,b):
        if a.place==b.place: return 'true'
        raise Unsupported('pointer comparison')
    # ---------- merging
    def mergeval(s,st,v1,v2,joins):
        if v1 is v2: return v1
        if type(v1)!=type(v2):
            if isinstance(v1,Obj) and isinstance(v2,S) and v2.ty is not None: v1=s.valS(v1,v2.ty)
            elif isinstance(v2,Obj) and isinstance(v1,S) and v1.ty is not None: v2=s.valS(v2,v1.ty)
            else: raise NoMerge()
        if isinstance(v1,S):
            if v1.e==v2.e: return v1
            if v1.vt!=v2.vt: raise NoMerge()
            rng=None
            if v1.rng and v2.rng: rng=(min(v1.rng[0],v2.rng[0]),max(v1.rng[1],v2.rng[1]))
            n=s.fresh('j')
            if v1.vt=='int' and v1.byte and v2.byte:
                joins.append((n,'int',v1.byte,v2.byte)); return S(f"sc({n})",'int',v1.ty,rng=rng,byte=n)
            joins.append((n,v1.vt,v1.e,v2.e))
            return S(n,v1.vt,v1.ty or v2.ty,rng=rng,tz=min(v1.tz,v2.tz))
        if isinstance(v1,It):
            if v1.cont!=v2.cont or v1.kind!=v2.kind: raise NoMerge()
            return It(v1.cont,s.mergeval(st,v1.idx,v2.idx,joins),v1.kind)
        if isinstance(v1,Obj):
            if set(v1.f)!=set(v2.f): raise NoMerge()
            return Obj(v1.ty,{k:s.mergeval(st,v1.f[k],v2.f[k],joins) for k in v1.f})
        if isinstance(v1,(Ref,BackIt)):
            if type(v1) is type(v2) and v1.place==v2.place: return v1
            raise NoMerge()
        if isinstance(v1,Ptr):
            if v1.place==v2.place and v1.null==v2.null: return v1
            raise NoMerge()
        if isinstance(v1,Void): return v1
        raise NoMerge()
    def merge(s,st,c,gt,gf,stmt=False):
        """run both alternatives of condition c; join when each falls through exactly once.
        gt/gf: state -> generator of (state, value-or-outcome)."""
        c0=c
        br=list(s.branch(st,c))
        if len(br)==1:
            yield from (gt if br[0][1] else gf)(br[0][0]); return
        s1,s2=br[0][0],br[1][0]
        nends=len(s.ends)
        r1=list(gt(s1)); r2=list(gf(s2))
        ok1=[x for x in r1 if not s.isexit(x[1],stmt)]; ok2=[x for x in r2 if not s.isexit(x[1],stmt)]
        if len(r1)==1 and len(r2)==1 and len(ok1)==1 and len(ok2)==1 and len(s.ends)==nends:
            try:
                e1,v1=ok1[0]; e2,v2=ok2[0]
                n1=e1.tr.nodes(s1.tr); n2=e2.tr.nodes(s2.tr)
                if e1.tr.root() is not st.tr.root() or e2.tr.root() is not st.tr.root(): raise NoMerge()
                if any(x[0] in(('br','loop') if s.merge_calls else ('call','br','loop')) for x in n1+n2): raise NoMerge()
                ch=[k for k,x in st.cells.items() if e1.cells[k] is not x or e2.cells[k] is not x]
                if n1 and len(n1)==len(n2) and alpha_same((n1,dump(v1),[dump(e1.cells[k]) for k in ch]),(n2,dump(v2),[dump(e2.cells[k]) for k in ch])):
                    # both alternatives do the same
                    m=st.copy()
                    for n in n1: m=m.add(*n)
                    m.cells={k:e1.cells[k] for k in st.cells}; m.facts=st.facts
                    if not stmt: s.check_escape(v1,st)
                    yield m,(None if stmt else v1); return
                joins=[]
                m=st.copy(); cells=dict(st.cells)
                for k in st.cells:
                    a,b=e1.cells[k],e2.cells[k]
                    cells[k]=a if a is b else s.mergeval(st,a,b,joins)
                # merged value may refer to temporaries: only pure values
                if stmt: v=None
                else:
                    v=s.mergeval(st,v1,v2,joins)
                    s.check_escape(v,st)
                m.cells=cells
                pure=not n1 and not n2
                if not stmt and pure and len(joins)==1 and isinstance(v,S) and joins[0][0]==(v.byte or v.e):
                    # plain conditional expression
                    j=joins[0]
                    x=ite(c,j[2],j[3])
                    if len(x)<160:
                        if v.byte: yield m,S(f"sc({x})",'int',v.ty,rng=v.rng,byte=x)
                        else: yield m,S(x,v.vt,v.ty,rng=v.rng,tz=v.tz)
                        return
                if joins or any(x[0]!='let' for x in n1+n2):
                    m=m.add('mif',c,n1,n2,joins)
                m.facts=st.facts
                yield m,v
                return
            except NoMerge: pass
        yield from r1
        yield from r2
    def check_escape(s,v,st):
        pls=[]
        def walk(x):
            if isinstance(x,(Ref,Ptr)) and x.place is not None: pls.append(x.place)
            elif isinstance(x,It): pls.append(x.cont)
            elif isinstance(x,Obj):
                for y in x.f.values(): walk(y)
        walk(v)
        for p in pls:
            if p.cid not in st.cells: raise NoMerge()
    def isexit(s,v,stmt):
        if stmt: return v is not None
        return isinstance(v,Thr)
    # ---------- expressions
    def ev(s,e,st):
        if e is None: raise Unsupported('null expression')
        m=getattr(s,'e_'+e['k'],None)
        if m is None: raise Unsupported(f"expression {e['k']} {e.get('n','')} @ {s.where(st,e)}")
        return m(e,st)
    def evs(s,es,st):
        """evaluate a list left to right"""
        if not es:
            yield st,[]; return
        for st1,v in s.ev(es[0],st):
            if isinstance(v,Thr): yield st1,v; continue
            for st2,vs in s.evs(es[1:],st1):
                if isinstance(vs,Thr): yield st2,vs
                else: yield st2,[v]+vs
    def ty(s,e,st): return s.P.ty(st.tu,e['t'])
    def rv(s,e,st):
        for st1,v in s.ev(e,st):
            yield st1,(s.rdref(st1,v) if not isinstance(v,Thr) else v)
    def cond(s,e,st):
        for st1,v in s.rv(e,st):
            yield st1,(v if isinstance(v,Thr) else s.tobool(v))
    def e_int(s,e,st):
        yield st,s.const(int(e['v']),s.ty(e,st))
    def e_bool(s,e,st): yield st,S('true' if e['v'] else 'false','bool',s.ty(e,st))
    def e_null(s,e,st): yield st,Ptr(None,'true')
    def e_str(s,e,st):
        by=e['v']; cid='lit:'+','.join(map(str,by))
        if cid not in st.cells:
            ex='seq!['+', '.join(f"{b&255}u8" for b in by)+']' if by else 'Seq::<u8>::empty()'
            t=Ty(); t.k='arr'; t.to=s.P.ty(st.tu,s.ty(e,st).to.idx); t.len=len(by); t._vt='Seq<u8>'; t.n=None; t.c=True; t.s='lit'
            st=st.cell(cid,S(ex,'Seq<u8>',t,c=bytes(b&255 for b in by)))
        yield st,Ref(Place(cid))
    def e_var(s,e,st):
        vid=e['id']
        if vid in st.env:
            v=st.env[vid]
            yield st,(Ref(v) if isinstance(v,Place) else v); return
        if e.get('g') or e.get('static'):
            yield from s.global_(e,st); return
        raise Unsupported(f"variable {e['n']} not bound")
    def global_(s,e,st):
        tu=st.tu; g=tu.globals.get(e['id'])
        if g is None: raise Unsupported(f"global {e['n']}")
        h=getattr(s.u,'globals',{}).get(g.get('q'))
        if h is not None:
            if h[0]=='cell':
                if h[1] not in st.cells: raise Unsupported(f"{g['q']} is used where the contract does not mention it")
                yield st,Ref(Place(h[1])); return
            cid='g:'+g['q']
            if cid not in st.cells: st=st.cell(cid,s.lift(h[1],s.P.ty(tu,g['t'])))
            yield st,Ref(Place(cid)); return
        if 'init' not in g and g['mg'] in s.P.glob_by_mg: tu,g=s.P.glob_by_mg[g['mg']]
        cid='g:'+g['mg']+('' if not g.get('internal') else '@'+tu.name)
        if cid in st.cells:
            yield st,Ref(Place(cid)); return
        if 'init' not in g: raise Unsupported(f"global {g['q']} without visible initializer")
        t=s.P.ty(tu,g['t'])
        if not (t.c or g.get('const')) and s.global_written(tu,g): raise Unsupported(f"mutable global {g['q']}")
        st0=st.frame({},None,tu,st.stack[-1])
        for st1,v in s.ev(g['init'],st0):
            if isinstance(v,Thr): raise Unsupported('throwing initializer')
            if t.k=='ref': 
                yield st1.back(st),v; continue
            v=s.init_value(st1,v,t)
            yield st1.back(st).cell(cid,v),Ref(Place(cid))
    def global_written(s,tu,g):
        gid=g['id']; bad=[]
        def walk(x,safe):
            if isinstance(x,dict):
                if x.get('k')=='var' and x.get('id')==gid and not safe: bad.append(1)
                sf=x.get('k')=='cast' and x.get('ck') in('LValueToRValue',)
                for kk,y in x.items():
                    if isinstance(y,(dict,list)): walk(y,sf and kk=='e')
            elif isinstance(x,list):
                for y in x: walk(y,False)
        for f in tu.d['fns']:
            if 'body' in f: walk(f['body'],False)
        return bool(bad)
    def init_value(s,st,v,t):
        """value to store in a variable of type t from an initializer result"""
        if isinstance(v,Ref): v=s.rd(st,v.place)
        return v
    def e_fnref(s,e,st): yield st,FnP(s.P.fn(st.tu,e['f']))
    def e_mfnref(s,e,st):
        for st1,b in s.ev(e['b'],st): yield st1,FnP(s.P.fn(st.tu,e['f']),b)
    def deref(s,st,v,e=None):
        """place designated by a pointer-like value"""
        if isinstance(v,Ptr):
            if v.null!='false': st=s.ob(st,neg(v.null),"null pointer dereference",e)
            if v.place is None: raise Unsupported('dereference of null constant')
            return st,v.place
        if isinstance(v,It): return s.it_deref(st,v,e)
        if isinstance(v,S) and v.vt.startswith('Option<'): raise Unsupported('deref of owning pointer value')
        raise Unsupported(f"dereference of {v}")
    def seqlen(s,st,place):
        v=s.rd(st,place)
        if isinstance(v,S) and v.c is not None and isinstance(v.c,bytes): return lit(len(v.c))
        if isinstance(v,Lst): return lit(len(v.vs))
        if isinstance(v,S) and (v.vt.startswith('Seq<') ): return f"({paren(v.e)}.len() as int)"
        raise Unsupported(f"length of {v}")
    def it_deref(s,st,v,e=None):
        n=s.seqlen(st,v.cont); i=v.idx
        if v.kind=='rev':
            st=s.ob(st,f"0 < {i.e} <= {n}","iterator out of range",e)
            return st,v.cont.step('i',f"({i.e} - 1)")
        if v.kind=='cstr':
            if i.c is not None and n.isdigit():
                st=s.ob(st,'true' if 0<=i.c<=int(n) else 'false',"pointer out of range",e)
            else: st=s.ob(st,f"0 <= {i.e} <= {n}","pointer out of range",e)
            return st,v.cont.step('ic',i.e)
        if i.c is not None and n.isdigit(): st=s.ob(st,'true' if 0<=i.c<int(n) else 'false',"iterator out of range",e)
        else: st=s.ob(st,f"0 <= {i.e} < {n}","iterator out of range",e)
        return st,v.cont.step('i',i.e)
    def it_add(s,st,v,d,e=None):
        """iterator + d (S)"""
        if v.kind=='rev': i=f"({v.idx.e} - {paren(d.e)})"; c=v.idx.c-d.c if v.idx.c is not None and d.c is not None else None
        else: i=f"({v.idx.e} + {paren(d.e)})"; c=v.idx.c+d.c if v.idx.c is not None and d.c is not None else None
        if c is not None: ix=s.const(c,None)
        else:
            st,i=s.let(st,i,'int','ix'); ix=S(i,'int',None)
        n=s.seqlen(st,v.cont)
        if c is not None and n.isdigit(): st=s.ob(st,'true' if 0<=c<=int(n) else 'false',"iterator arithmetic out of range",e)
        else: st=s.ob(st,f"0 <= {ix.e} <= {n}","iterator arithmetic out of range",e)
        return st,It(v.cont,ix,v.kind)
    def it_sub(s,st,a,b,t):
        if a.cont!=b.cont: raise Unsupported('difference of unrelated iterators')
        if a.kind=='rev': a,b=b,a
        if a.idx.c is not None and b.idx.c is not None: return s.const(a.idx.c-b.idx.c,t)
        if b.idx.c==0: return S(a.idx.e,'int',t,rng=(0,2**62))
        return S(f"({a.idx.e} - {b.idx.e})",'int',t,rng=(-2**62,2**62))
    def e_mem(s,e,st):
        ft=s.P.ty(st.tu,e['ft'])
        for st1,b in s.ev(e['b'],st):
            if isinstance(b,Thr): yield st1,b; continue
            if e.get('ar'): st1,pl=s.deref(st1,b,e)
            elif isinstance(b,Ref): pl=b.place
            else: st1,pl=s.newcell(st1,b)
            yield from s.member(st1,pl,e['f'],ft)
    def member(s,st,pl,f,ft):
        p=pl.step('f',f)
        if ft.k=='ref':
            v=s.rd(st,p); yield st,v; return
        yield st,Ref(p)
    def e_this(s,e,st): yield st,Ptr(st.this)
    def e_cast(s,e,st):
        ck=e['ck']; t=s.ty(e,st)
        if ck=='LValueToRValue':
            for st1,v in s.ev(e['e'],st):
                if isinstance(v,Thr): yield st1,v; continue
                v=s.rdref(st1,v)
                if v is UNINIT:
                    st1=s.ob(st1,'false','read of uninitialised variable',e); v=s.arbitrary(st1,t)
                yield st1,v
            return
        for st1,v in s.ev(e['e'],st):
            if isinstance(v,Thr): yield st1,v; continue
            if ck in('IntegralCast',): yield st1,s.cast_int(v,t)
            elif ck in('IntegralToBoolean','PointerToBoolean','MemberPointerToBoolean'): yield st1,s.tobool(v)
            elif ck=='ArrayToPointerDecay':
                if not isinstance(v,Ref): st1,pl=s.newcell(st1,v); v=Ref(pl)
                x=st1.cells[v.place.cid] if not v.place.path else None
                kind='cstr' if v.place.cid.startswith('lit:') else 'it'
                yield st1,It(v.place,s.const(0,None),kind)
            elif ck in('DerivedToBase','UncheckedDerivedToBase','BaseToDerived','NoOp','BitCast','ToVoid','UserDefinedConversion','ConstructorConversion','FunctionToPointerDecay'):
                if ck=='BaseToDerived' or ck=='DerivedToBase' or ck=='UncheckedDerivedToBase':
                    st1,v=s.cast_class(st1,v,ck,s.ty(e['e'],st),t,e)
                yield st1,v
            elif ck=='LValueBitCast':
                if isinstance(v,Ref):
                    cur=s.ty(e['e'],st)
                    if t.k=='int' and t.bits==8 and cur.k=='int' and cur.bits==8:
                        yield st1,Ref(v.place.step('uc',t)) if not t.sg and not s.ischar(t) else Ref(v.place.step('sc8',t))
                        continue
                raise Unsupported(f"reinterpret_cast to {t.s}")
            elif ck=='NullToPointer': yield st1,Ptr(None,'true')
            elif ck=='Dynamic': yield from s.dyn_cast(st1,v,t,e)
            else: raise Unsupported(f"cast {ck}")
    def cast_class(s,st,v,ck,ft,tt,e): return st,v
    def elemeq(s,st,p,q,e):
        from . import stl
        r=stl.eqv(s,st,s.rdref(st,p),s.rdref(st,q),e)
        if r is None: raise Unsupported('element equality')
        yield st,S(r,'bool')
    def dyn_cast(s,st,v,t,e): raise Unsupported('dynamic_cast')
    def arbitrary(s,st,t):
        return s.lift(f"uninit::<{s.vt(t)}>()",t)
    def e_un(s,e,st):
        op=e['op']; t=s.ty(e,st)
        if op in('++','--'):
            for st1,v in s.ev(e['e'],st):
                if isinstance(v,Thr): yield st1,v; continue
                old=s.rd(st1,v.place)
                if isinstance(old,It): st1,new=s.it_add(st1,old,s.const(1 if op=='++' else -1,None),e)
                else:
                    if old is UNINIT: raise Unsupported('increment of uninitialised variable')
                    ty=s.ty(e['e'],st)
                    if trange(ty)[1]<2**31-1:  # promoted to int, then converted back
                        it=old; one=s.const(1,ty)
                        r=old.rng or trange(ty)
                        raw=S(f"({paren(old.e)} {op[0]} 1)",'int',ty,rng=(r[0]-1,r[1]+1)); new=s.cast_int(raw,ty)
                    else: st1,new=s.arith(st1,op[0],old,s.const(1,ty),ty,e)
                    if new.c is None: st1,new=s.letS(st1,new,'i')
                st1=s.wr(st1,v.place,new)
                yield st1,(old if e.get('post') else v)
            return
        if op=='*':
            for st1,v in s.rv(e['e'],st):
                if isinstance(v,Thr): yield st1,v; continue
                if isinstance(v,FnP): yield st1,v; continue
                st1,pl=s.deref(st1,v,e); yield st1,Ref(pl)
            return
        if op=='&':
            for st1,v in s.ev(e['e'],st):
                if isinstance(v,(Thr,FnP)): yield st1,v; continue
                if not isinstance(v,Ref): raise Unsupported('address of rvalue')
                pl=v.place
                if pl.path and pl.path[-1][0] in('i','ic') and e['e']['k'] in('idx','call'):
                    ix=pl.path[-1][1]; yield st1,It(Place(pl.cid,pl.path[:-1]),S(ix,'int',None),'cstr' if pl.path[-1][0]=='ic' else 'it')
                else: yield st1,Ptr(pl)
            return
        for st1,v in s.rv(e['e'],st):
            if isinstance(v,Thr): yield st1,v; continue
            if op=='!':
                b=s.tobool(v); yield st1,S(neg(b.e),'bool',t)
            elif op=='-':
                st1,r=s.arith(st1,'-',s.const(0,t),v,t,e); yield st1,r
            elif op=='+': yield st1,s.asint(v,t)
            elif op=='~':
                v=s.asint(v,t)
                if v.c is not None: yield st1,s.cast_int(s.const(~v.c,t),t)
                elif t.sg: yield st1,S(f"(-1 - {paren(v.e)})",'int',t,rng=trange(t))
                else: yield st1,S(f"({trange(t)[1]} - {paren(v.e)})",'int',t,rng=trange(t))
            else: raise Unsupported('unary '+op)
    def e_bin(s,e,st):
        op=e['op']; t=s.ty(e,st)
        if op in('&&','||'):
            for st1,a in s.cond(e['a'],st):
                if isinstance(a,Thr): yield st1,a; continue
                tr=lambda x: iter([(x,S('true','bool',t))]); fa=lambda x: iter([(x,S('false','bool',t))])
                rhs=lambda x: s.cond(e['b'],x)
                if op=='&&': yield from s.merge(st1,a.e,rhs,fa)
                else: yield from s.merge(st1,a.e,tr,rhs)
            return
        if op==',':
            for st1,a in s.ev(e['a'],st):
                if isinstance(a,Thr): yield st1,a; continue
                yield from s.ev(e['b'],st1)
            return
        for st1,vs in s.evs([e['a'],e['b']],st):
            if isinstance(vs,Thr): yield st1,vs; continue
            a,b=[s.rdref(st1,x) for x in vs]
            yield from s.binop(st1,op,a,b,t,e)
    def binop(s,st,op,a,b,t,e):
        if op in('==','!=','<','>','<=','>='):
            st,r=s.compare(st,op,a,b,e); r.ty=t; yield st,r; return
        if isinstance(a,It) or isinstance(b,It):
            if isinstance(a,It) and isinstance(b,It) and op=='-': yield st,s.it_sub(st,a,b,t); return
            if op=='+':
                if isinstance(b,It): a,b=b,a
                st,r=s.it_add(st,a,b,e); yield st,r; return
            if op=='-':
                nb=S(f"(0 - {paren(b.e)})",'int',None,c=-b.c if b.c is not None else None)
                if nb.c is not None: nb=s.const(nb.c,None)
                st,r=s.it_add(st,a,nb,e); yield st,r; return
            raise Unsupported('pointer arithmetic '+op)
        st,r=s.arith(st,op,a,b,t,e); yield st,r
    def e_assign(s,e,st):
        # C++14: unsequenced operands; evaluate right then left
        for st1,b in s.rv(e['b'],st):
            if isinstance(b,Thr): yield st1,b; continue
            for st2,a in s.ev(e['a'],st1):
                if isinstance(a,Thr): yield st2,a; continue
                yield s.wr(st2,a.place,s.wrval(b,a)),a
    def wrval(s,v,ref): return v
    def e_cassign(s,e,st):
        for st1,b in s.rv(e['b'],st):
            if isinstance(b,Thr): yield st1,b; continue
            for st2,a in s.ev(e['a'],st1):
                if isinstance(a,Thr): yield st2,a; continue
                old=s.rd(st2,a.place)
                if isinstance(old,It):
                    for st3,r in s.binop(st2,e['op'],old,b,None,e): yield s.wr(st3,a.place,r),a
                    continue
                if old is UNINIT: raise Unsupported('uninitialised')
                ct=s.P.ty(st.tu,e['clt']); rt=s.P.ty(st.tu,e['ct']); lt=s.ty(e['a'],st)
                x=s.cast_int(old,ct) if ct.k!='bool' else old
                bb=b
                if e['op'] not in('<<','>>'): bb=s.cast_int(b,ct) if isinstance(b,S) and b.vt=='int' else b
                if ct.k=='bool': raise Unsupported('compound assignment on bool')
                st2,r=s.arith(st2,e['op'],x,bb,rt,e)
                r=s.cast_int(r,lt) if lt.k!='bool' else s.tobool(r)
                if r.c is None: st2,r=s.letS(st2,r)
                yield s.wr(st2,a.place,r),a
    def e_cond(s,e,st):
        for st1,c in s.cond(e['c'],st):
            if isinstance(c,Thr): yield st1,c; continue
            yield from s.merge(st1,c.e,lambda x: s.ev(e['a'],x),lambda x: s.ev(e['b'],x))
    def e_idx(s,e,st):
        for st1,vs in s.evs([e['b'],e['i']],st):
            if isinstance(vs,Thr): yield st1,vs; continue
            a,b=[s.rdref(st1,x) for x in vs]
            if not isinstance(a,It): a,b=b,a
            if not isinstance(a,It): raise Unsupported(f"index into {a}")
            b=s.asint(b)
            if a.idx.c==0: ix=b
            elif a.idx.c is not None and b.c is not None: ix=s.const(a.idx.c+b.c,None)
            else: ix=S(f"({a.idx.e} + {paren(b.e)})",'int',None)
            st1,ix=s.letS(st1,ix,'ix')
            st1,pl=s.deref(st1,It(a.cont,ix,a.kind),e)
            yield st1,Ref(pl)
    def e_mtemp(s,e,st):
        for st1,v in s.ev(e['e'],st):
            if isinstance(v,(Thr,Ref)): yield st1,v; continue
            st1,pl=s.newcell(st1,v); yield st1,Ref(pl)
    def e_list(s,e,st):
        t=s.ty(e,st)
        for st1,vs in s.evs(e['a'],st):
            if isinstance(vs,Thr): yield st1,vs; continue
            raw=list(vs); vs=[x if t.k=='rec' and isinstance(x,Ref) and i<len(s.u.fields(t) or []) and s.u.fields(t)[i][1].k=='ref' else s.rdref(st1,x) for i,x in enumerate(vs)]
            if t.k=='rec' and stdq(t.n)=='std::array' and len(vs)==1 and isinstance(vs[0],Lst): yield st1,vs[0]
            elif t.k=='rec':
                fl=s.u.fields(t)
                if fl is None or len(fl)!=len(vs): raise Unsupported(f"initializer list for {t.s}")
                yield st1,Obj(t,{n:(vs0 if ft.k=='ref' else v) for (n,ft),v,vs0 in zip(fl,vs,raw)})
            elif t.k=='arr':
                n=t.len
                if n is not None and len(vs)<n:
                    if n>64: raise Unsupported('large array filler')
                    vs=vs+[s.zero(t.to)]*(n-len(vs))
                yield st1,Lst(vs,t.to)
            elif len(vs)==1: yield st1,vs[0]
            elif not vs: yield st1,s.zero(t)
            else: raise Unsupported('initializer list')
    def e_stdil(s,e,st):
        for st1,v in s.ev(e['e'],st):
            if isinstance(v,Thr): yield st1,v; continue
            v=s.rdref(st1,v); yield st1,v
    def zero(s,t):
        if t.k in('int','enum'): return s.const(0,t)
        if t.k=='bool': return S('false','bool',t)
        if t.k in('ptr','null'): return Ptr(None,'true')
        if t.k=='arr': return Lst([s.zero(t.to)]*(t.len or 0),t.to)
        v=s.default_stl(t)
        if v is not None: return v
        if t.k=='rec':
            fl=s.u.fields(t)
            if fl is not None: return Obj(t,{n:s.zero(ft) for n,ft in fl})
        raise Unsupported(f"value-initialisation of {t.s}")
    def default_stl(s,t):
        if t.k!='rec': return None
        vt=s.u.vt(t); q=stdq(t.n)
        if q.startswith('std::'):
            if vt and vt.startswith('Seq<') and q!='std::bitset' and q!='std::array': return S(f"{vt.replace('Seq<','Seq::<',1)}::empty()",vt,t)
            if vt and vt.startswith('Map<'): return S(f"{vt.replace('Map<','Map::<',1)}::empty()",vt,t)
            if vt and vt.startswith('Option<'): return S('None',vt,t)
            if q=='std::bitset': return S(f"Seq::new({t.args[0]}nat, |i: int| false)",vt,t)
            if q in('std::pair','std::tuple'):
                names=['first','second'] if q=='std::pair' else [str(i) for i in range(len(t.args))]
                return Obj(t,{n:s.zero(a) for n,a in zip(names,t.args)})
        return None
    def e_zero(s,e,st): yield st,s.zero(s.ty(e,st))
    def e_lambda(s,e,st):
        caps={}
        def go(i,st):
            if i==len(e['caps']):
                yield st,None; return
            c=e['caps'][i]
            for st1,v in s.ev(c['init'],st):
                if c.get('this'): caps['this']=v
                elif c['ref']: caps[c['id']]=v.place
                else:
                    st1,pl=s.newcell(st1,s.rdref(st1,v)); caps[c['id']]=pl
                yield from go(i+1,st1)
        for st1,_ in go(0,st):
            yield st1,Clo(e,st.tu,dict(caps),st.this)
    def e_throw(s,e,st):
        if 'e' in e:
            n=s.P.ty(st.tu,e['et']).s
            yield st,Thr(n)
        else: yield st,Thr('rethrow')
    def e_new(s,e,st):
        if e.get('arr') or 'e' not in e: raise Unsupported('new expression')
        for st1,v in s.ev(e['e'],st):
            if isinstance(v,Thr): yield st1,v; continue
            v=s.rdref(st1,v); st1,pl=s.inplace(st1,v) or s.newcell(st1,v,'new'); yield st1,Ptr(pl)
    def inplace(s,st,v,how='new'):
        """an object constructed by an inlined constructor that holds pointers into itself stays where it was built"""
        if not isinstance(v,Obj): return None
        for cid,x in st.cells.items():
            if x is v and cid.startswith('obj') and s.refers(v,cid): return (st,Place(cid))
        return None
    def refers(s,v,cid):
        if isinstance(v,(Ref,Ptr)): return v.place is not None and v.place.cid==cid
        if isinstance(v,Obj): return any(s.refers(x,cid) for x in v.f.values())
        return False
    def e_typeid(s,e,st):
        # of a type operand: a constant naming that (reference- and cv-stripped) type
        if 'of' not in e: raise Unsupported('typeid of an expression')
        t=s.P.ty(st.tu,e['of'])
        if t.k=='ref': t=t.to
        k=t.key if t.k=='rec' else t.s
        l=s.P.__dict__.setdefault('typeids',[])
        if k not in l: l.append(k)
        yield st,S(f"{l.index(k)}int",'int',None)
    def e_delete(s,e,st):
        for st1,v in s.rv(e['e'],st): yield st1,(v if isinstance(v,Thr) else VOID)
    def e_ctor(s,e,st):
        f=s.P.fn(st.tu,e['f']); t=s.ty(e,st)
        for st1,vs in s.evs(e['a'],st):
            if isinstance(vs,Thr): yield st1,vs; continue
            yield from s.construct(st1,f,t,vs,e)
    def construct(s,st,f,t,vs,e):
        f=s.P.resolve(f)
        m=s.model(f,t)
        if m: yield from m(st,f,t,None,vs,e); return
        ct=s.contract_of(f)
        if (f.copy or f.move) and len(vs)==1:
            v0=s.rdref(st,vs[0])
            if isinstance(v0,(Clo,FnP)) or not f.has_body or self_trivial(f): yield st,v0; return
        if ct is not None and not (s.pure and not ct.pure):
            yield from s.call_contract(st,f,ct,None,vs,e); return
        if f.has_body:
            fl=s.u.fields(t)
            if fl is None: raise Unsupported(f"construct {t.s}")
            st1,pl=s.newcell(st,Obj(t,{n:UNINIT for n,_ in fl}),'obj')
            for st2,v in s.inline(st1,f,pl,vs,e):
                if isinstance(v,Thr): yield st2,v
                else: yield st2,s.rd(st2,pl)
            return
        if f.dflt or (f.trivial and not vs):
            fl=s.u.fields(t)
            if fl is not None and e.get('zero'): yield st,s.zero(t); return
            if fl is not None: yield st,Obj(t,{n:UNINIT for n,_ in fl}); return
        raise Unsupported(f"constructor {f.q}({', '.join(p.s for p in f.pt)})")
    # ---------- calls
    def model(s,f,t=None):
        from . import stl
        q=stdq(f.q)
        m=stl.M.get(q)
        if m is None: return None
        s.u.models.add(q)
        return lambda st,f,t,obj,vs,e: m(s,st,f,t,obj,vs,e)
    def kinded(s,st,f,obj,vs): return None
    def contract_of(s,f):
        l=s.u.contracts.get(stdq(f.q))
        if not l: return None
        for c in l:
            if (c.sig is None or c.sig(f)) and not c.kinds: return c
        return None
    def e_call(s,e,st):
        if 'f' not in e:
            for st1,vs in s.evs([e['ce']]+e['a'],st):
                if isinstance(vs,Thr): yield st1,vs; continue
                c=s.rdref(st1,vs[0])
                yield from s.callv(st1,c,vs[1:],e)
            return
        f=s.P.fn(st.tu,e['f'])
        es=([e['obj']] if 'obj' in e else [])+e['a']
        for st1,vs in s.evs(es,st):
            if isinstance(vs,Thr): yield st1,vs; continue
            obj=None
            if 'obj' in e:
                obj,vs=vs[0],vs[1:]
                if e.get('ar'):
                    o=s.rdref(st1,obj)
                    st1,pl=s.deref(st1,o,e); obj=Ref(pl)
                if isinstance(obj,(Clo,FnP)): yield from s.callv(st1,obj,vs,e); continue
                if not isinstance(obj,Ref): st1,pl=s.newcell(st1,obj); obj=Ref(pl)
                if f.op=='()' :
                    c=s.rd(st1,obj.place)
                    if isinstance(c,(Clo,FnP)): yield from s.callv(st1,c,vs,e); continue
            yield from s.call(st1,f,obj,vs,e,virt=e.get('virt'))
    def callv(s,st,c,vs,e):
        if isinstance(c,FnP):
            yield from s.call(st,c.fn,c.obj if c.obj is None or isinstance(c.obj,Ref) else Ref(s.deref(st,c.obj)[1]),vs,e); return
        if isinstance(c,Clo):
            ops=[s.P.fn(c.tu,i) for i in c.node['ops']]
            if len(ops)==1: f=ops[0]
            else:
                f=s.pick_generic(st,c,ops,vs,e)
            env=dict(c.caps)
            yield from s.inline(st,f,c.caps['this'].place if 'this' in c.caps else c.this,vs,e,env=env,tu=c.tu); return
        raise Unsupported(f"call of {c}")
    def pick_generic(s,st,c,ops,vs,e):
        if e is not None and 'f' in e:
            f=s.P.fn(st.tu,e['f'])
            for o in ops:
                if o is f: return o
        raise Unsupported('generic lambda dispatch')
    def call(s,st,f,obj,vs,e,virt=False):
        if virt and f.virtual:
            r=s.call_virtual(st,f,obj,vs,e)
            if r is not None: yield from r; return
        f=s.P.resolve(f)
        ct=s.graphed(st,f,s.contract_of(f),obj,vs)
        if ct is not None:
            k=s.kinded(st,f,obj,vs)
            if k: ct,obj,vs=k
        if ct is not None and not (s.pure and f.has_body and not ct.pure): 
            yield from s.call_contract(st,f,ct,obj,vs,e); return
        m=s.model(f)
        if m: yield from m(st,f,None,obj,vs,e); return
        if f.has_body:
            yield from s.inline(st,f,obj.place if obj is not None else None,vs,e); return
        if (f.copy or f.move) and f.op=='=' and f.m:
            v=s.rdref(st,vs[0]); yield s.wr(st,obj.place,v),obj; return
        raise Unsupported(f"call to {f.q}({', '.join(p.s for p in f.pt)}) @ {s.where(st,e)}")
    def call_virtual(s,st,f,obj,vs,e): return None
    def methods(s,ty,name):
        """member functions with bodies of a class type (its own, else those of its bases)"""
        if ty.rec is None: return []
        r=s.P.rec(ty.tu,ty.rec)
        out=[f for l in s.P.by_q.values() for f in l if f.m and f.name==name and f.rec is not None and f.rec.key==r.key]
        if not out:
            for b in r.bases: out+=s.methods(b,name)
        return out
    def call_named(s,st,place,name,vs,e):
        """call of a member function known by name only (from inside a library algorithm)"""
        v=s.rd(st,place); c=[f for f in s.methods(v.ty,name) if len(f.pt)==len(vs)] if getattr(v,'ty',None) is not None else []
        if len(c)>1:
            def key(t): return t.to if t.k=='ref' else t
            ats=[getattr(s.rdref(st,x),'ty',None) for x in vs]
            c2=[f for f in c if all(a is not None and s.u.vt(key(p))==s.u.vt(a) and (key(p).k!='rec' or stdq(key(p).n or '')==stdq(a.n or '')) for p,a in zip(f.pt,ats))]
            c=c2 or c
        if len(c)!=1: raise Unsupported(f"call of {name} of {getattr(v,'ty',None)}: {len(c)} candidates")
        yield from s.call(st,c[0],Ref(place),vs,e)
    def call_op(s,st,place,vs,e): yield from s.call_named(st,place,'operator()',vs,e)
    def bindparams(s,st,f,vs,env):
        env=dict(env)
        ps=f.params or []
        for i,p in enumerate(ps):
            pt=s.P.ty(f.tu,p['t'])
            if i>=len(vs): raise Unsupported(f"missing argument for {f.q}")
            v=vs[i]
            if pt.k=='ref':
                if isinstance(v,Ref): env[p['id']]=v.place
                else:
                    st,pl=s.newcell(st,v,p['n'] or 'a'); env[p['id']]=pl
            else:
                v=s.rdref(st,v)
                st,v=s.letS(st,v,p['n'] or 'a')
                st,pl=s.newcell(st,v,p['n'] or 'a'); env[p['id']]=pl
        return st,env
    def inline(s,st,f,this,vs,e,env=None,tu=None):
        if f in st.stack: raise Unsupported(f"recursion through {f.q} without a contract")
        if len(st.stack)>40: raise Unsupported('inlining too deep')
        s.u.inlined.add(f"{f.q} ({(f.file or '').replace('/repo/','')}:{f.line})")
        st1,env2=s.bindparams(st,f,vs,env or {})
        st2=st1.frame(env2,this,f.tu,f)
        for st3,out in s.body(st2,f):
            st4=st3.back(st)
            if out is None: yield st4,(VOID if f.kind!='ctor' else VOID)
            elif out[0]=='ret': yield st4,out[1]
            elif out[0]=='thr':
                if f.noexcept:
                    st4=s.ob(st4,'false',f"exception {out[1]} escapes noexcept function {f.q} (std::terminate)",e)
                    s.ends.append((st4.tr,('absurd',)))
                else: yield st4,Thr(out[1])
            else: raise Unsupported('break out of function')
    def body(s,st,f):
        """constructor initialisers and body"""
        if f.kind=='ctor' and f.inits:
            yield from s.ctor_inits(st,f,0); return
        yield from s.exec(f.body,st)
    def ctor_inits(s,st,f,i):
        if i==len(f.inits):
            yield from s.exec(f.body,st); return
        io=f.inits[i]
        if 'f' in io:
            ft=None
            for n,t in s.u.fields(s.thisty(f)) or []:
                if n==io['f']: ft=t
            for st1,v in s.ev(io['e'],st):
                if isinstance(v,Thr): yield st1,('thr',v.name); continue
                if ft is not None and ft.k=='ref': val=v
                else: val=s.rdref(st1,v)
                st2=s.wr(st1,st1.this.step('f',io['f']),val)
                yield from s.ctor_inits(st2,f,i+1)
        elif 'base' in io or io.get('delegate'):
            ex=io['e']
            if ex['k']=='list' and not ex['a']:
                yield from s.ctor_inits(st,f,i+1); return
            if ex['k']!='ctor': raise Unsupported('base initialiser form')
            bf=s.P.resolve(s.P.fn(st.tu,ex['f']))
            bt=s.P.ty(st.tu,ex['t'])
            for st1,vs in s.evs(ex['a'],st):
                if isinstance(vs,Thr): yield st1,('thr',vs.name); continue
                if s.model(bf,bt):
                    for st2,v in s.construct(st1,bf,bt,vs,ex):
                        if isinstance(v,Thr): yield st2,('thr',v.name); continue
                        st3=s.wr(st2,st2.this,v); yield from s.ctor_inits(st3,f,i+1)
                elif bf.has_body:
                    for st2,v in s.inline(st1,bf,st1.this,vs,ex):
                        if isinstance(v,Thr): yield st2,('thr',v.name); continue
                        yield from s.ctor_inits(st2,f,i+1)
                elif bf.dflt or (bf.trivial and not vs): yield from s.ctor_inits(st1,f,i+1)
                elif (bf.copy or bf.move) and not (s.u.fields(bt) or []): yield from s.ctor_inits(st1,f,i+1)
                else: raise Unsupported(f"base constructor {bf.q}")
        else: raise Unsupported('initialiser')
    def thisty(s,f):
        t=Ty(); t.k='rec'; t.rec=f.rec.idx; t.tu=f.rec.tu; t.n=f.rec.q; t.key=f.rec.key; t._vt=None; t.s=f.rec.key; t.args=None; t.c=False
        return t
    # ---------- contracts at call sites
    def flat_sig(s,f,ct):
        """parameter plan of a contract: list of (cname, kind, Ty, extra)"""
        return s.u.plan(s,f,ct)
    def graphed(s,st,f,ct,obj,vs):
        """a contract on an object graph is one for that wiring only: with other objects the function is inlined"""
        if ct is None or getattr(ct,'graph',None) is None: return ct
        for c in s.u.contracts[stdq(f.q)]:
            if not(c.sig is None or c.sig(f)) or getattr(c,'graph',None) is None: continue
            g=[i for i,n in enumerate(c.params) if n.endswith(':graph')][0]
            try: c.graph.resolve(s,st,(([obj] if obj is not None else [])+list(vs))[g]); return c
            except Unsupported: pass
        return None
    def call_contract(s,st,f,ct,obj,vs,e):
        if getattr(ct,'graph',None):   # the contract for the object graph actually passed
            for c in s.u.contracts[stdq(f.q)]:
                if not(c.sig is None or c.sig(f)): continue
                g=[i for i,n in enumerate(c.params) if n.endswith(':graph')][0]
                try: c.graph.resolve(s,st,(([obj] if obj is not None else [])+list(vs))[g]); ct=c; break
                except Unsupported as ex: last=ex
            else: raise last
        sg=s.u.sig(s,f,ct)
        args=[]; outs=[]
        conts={}
        allv=([obj] if sg.has_this else [])+list(vs)
        conts['=places']={}
        for p,v in zip(sg.params,allv):
            if isinstance(v,Ref): conts['=places'][p.name]=v.place
            st,a,o=s.pass_arg(st,p,v,conts,e)
            args+=a; outs+=o
        for q in sg.ghosts:
            if q.cid not in st.cells: raise Unsupported(f"{f.q} uses {q.name}, which its caller's contract does not mention")
            v=s.rd(st,Place(q.cid)); args.append(v.e); outs.append((Place(q.cid),q.ty,q.name))
        lab=f"precondition of {f.q} @ {s.where(st,e)}"
        if sg.is_pure_bool: pass
        n=s.fresh('r')
        callx=f"{sg.vname}({', '.join(args)})"
        post=f"post_{sg.vname}({', '.join(args+[n])})"
        if ct.pure:
            rx=f"val_{sg.vname}({', '.join(args)})"
            st=st.add('call',n,sg.rvt,callx,lab,f"post_{sg.vname}({', '.join(args+[rx])})",f"pre_{sg.vname}({', '.join(args)})",True)
            comp={sg.comps[0][0]:rx}
        else:
            st=st.add('call',n,sg.rvt,callx,lab,post,f"pre_{sg.vname}({', '.join(args)})",False)
            s.atoms[n]=sg.rvt
            comp=sg.components(n)
        # out parameters
        for (pl,t,cn) in outs:
            st=s.wr(st,pl,s.lift(comp[cn],t) if t.k!='rec' else S(comp[cn],s.vt(t),t))
        def result(st):
            if sg.ret is None: return VOID
            if sg.retkind=='alias':
                v=s.rdref(st,allv[sg.retparam])
                if not isinstance(v,Ptr): raise Unsupported('aliased pointer argument')
                if v.place is None: return Ptr(None,'true')
                return Ptr(s.alias_place(v.place,f.rt.to,sg.params[sg.retparam].ty),comp['ret_null'])
            if sg.retkind=='ptr':
                st2,pl=s.newcell(st,s.lift(comp['ret'],sg.rty),'rp'); s._rst=st2
                return Ptr(pl,comp['ret_null'],sg.rty)
            return s.lift_ret(st,sg,f,ct,comp.get('ret'),conts,n,allv)
        if sg.throws:
            for st1,b in s.branch(st,comp['exc']):
                if b: yield st1,Thr('contract')
                else:
                    s._rst=None; v=result(st1); yield s._rst or st1,v
        else:
            s._rst=None; v=result(st); yield s._rst or st,v
    def lift_ret(s,st,sg,f,ct,e,conts,n,allv):
        t=sg.rty
        if sg.retkind in('it','pair_it') and '.' in sg.retcont: conts[sg.retcont]=s.cont_place(conts,sg.retcont)
        if sg.retkind=='back': return BackIt(conts[sg.retcont])
        if sg.retkind=='it': return It(conts[sg.retcont],S(e,'int',None))
        if sg.retkind=='pair_it':
            return Obj(t,{'first':s.lift(f"{e}.0",t.args[0]),'second':It(conts[sg.retcont],S(f"{e}.1",'int',None))})
        if sg.retkind=='ref_param':   # returns its own argument by reference
            return allv[sg.retparam]
        if sg.retkind=='opaque': return Opaque('reference returned by '+f.q)
        return s.lift(e,t)
    def alias_place(s,pl,rt,pt): return pl
    def cont_place(s,conts,cont):
        b,*fs=cont.split('.')
        pl=conts['=places'].get(b)
        if pl is None: raise Unsupported('container argument')
        for f in fs: pl=pl.step('f',f)
        return pl
    def pass_arg(s,st,p,v,conts,e):
        """returns st, [arg exprs], [(place,ty,outname)]"""
        k=p.kind
        if k=='it':
            v=s.rdref(st,v)
            if not isinstance(v,It): raise Unsupported(f"iterator argument expected: {v}")
            a=[]
            if '.' in p.cont:
                conts[p.cont]=s.cont_place(conts,p.cont)
                if v.cont!=conts[p.cont]: raise Unsupported('iterator into another container')
                return st,[v.idx.e],[]
            if p.cont not in conts:
                conts[p.cont]=v.cont
                c=s.rd(st,v.cont)
                a.append(s.lower(c,p.cty) if isinstance(c,S) else s.lower(c,None))
            elif conts[p.cont]!=v.cont: raise Unsupported('iterators into different containers')
            return st,a+[v.idx.e],[]
        if k=='val':
            v=s.rdref(st,v)
            return st,[s.lower(v,p.ty)],[]
        if k=='inout':
            if not isinstance(v,Ref): st,pl=s.newcell(st,v,'tmp'); v=Ref(pl)
            return st,[s.lower(s.rd(st,v.place),p.ty)],[(v.place,p.ty,p.name)]
        if k=='out': return st,[],[(v.place,p.ty,p.name)]
        if k=='ptr':
            v=s.rdref(st,v)
            if isinstance(v,It): raise Unsupported('pointer argument')
            if isinstance(v,S) and v.vt=='El' and not p.inout: return st,[v.e,'false'],[]   # a stored pointer to an element (never null)
            if v.place is None: return st,[f"uninit::<{s.vt(p.ty)}>()",'true'],[]
            return st,[s.lower(s.rd(st,v.place),p.ty),v.null],([(v.place,p.ty,p.name)] if p.inout else [])
        if k=='skip': return st,[],[]
        if k=='back':
            v=s.rdref(st,v)
            if not isinstance(v,BackIt): raise Unsupported('output iterator argument')
            conts[p.cont]=v.place
            return st,[s.lower(s.rd(st,v.place),p.cty)],[(v.place,p.cty,p.cont)]
        if k=='graph':
            l=p.graph.resolve(s,st,v)
            return st,[s.lower(s.rd(st,pl),ty) for n,pl,ty in l],[(pl,ty,n) for n,pl,ty in l]
        raise Unsupported('argument kind '+k)
    # ---------- statements
    def exec(s,n,st):
        m=getattr(s,'s_'+n['s'],None)
        if m is None: raise Unsupported(f"statement {n['s']} {n.get('n','')} @ {s.where(st,n)}")
        return m(n,st)
    def seq(s,l,st,i=0):
        if i>=len(l):
            yield st,None; return
        for st1,o in s.exec(l[i],st):
            if o is not None: yield st1,o
            else: yield from s.seq(l,st1,i+1)
    def s_block(s,n,st): return s.seq(n['b'],st)
    def s_null(s,n,st): yield st,None
    def s_expr(s,n,st):
        for st1,v in s.ev(n['e'],st):
            yield st1,(('thr',v.name) if isinstance(v,Thr) else None)
    def s_decl(s,n,st): return s.decls(n['v'],st,0)
    def decls(s,l,st,i):
        if i==len(l):
            yield st,None; return
        for st1,o in s.vardecl(l[i],st):
            if o is not None: yield st1,o
            else: yield from s.decls(l,st1,i+1)
    def vardecl(s,d,st):
        t=s.P.ty(st.tu,d['t'])
        if d.get('static') and not t.c: raise Unsupported('mutable static local')
        if 'init' not in d:
            if t.k=='arr': v=S(f"uninit::<{s.vt(t)}>()",s.vt(t),t) if s.u.vt(t) else UNINIT
            else: v=UNINIT
            st,pl=s.newcell(st,v,d['n']); yield st.bind(d['id'],pl),None; return
        for st1,v in s.ev(d['init'],st):
            if isinstance(v,Thr): yield st1,('thr',v.name); continue
            if t.k=='ref':
                if isinstance(v,Ref): yield st1.bind(d['id'],v.place),None
                else:
                    st1,pl=s.newcell(st1,v,d['n']); yield st1.bind(d['id'],pl),None
                continue
            v=s.rdref(st1,v)
            ip=s.inplace(st1,v)
            if ip: yield st1.bind(d['id'],ip[1]),None; continue
            st1,v=s.letS(st1,v,d['n'])
            st1,pl=s.newcell(st1,v,d['n'])
            yield st1.bind(d['id'],pl),None
    def s_if(s,n,st):
        def pre(st):
            if n.get('init'):
                for st1,o in s.exec(n['init'],st): yield st1,o
            else: yield st,None
        for st0,o in pre(st):
            if o is not None: yield st0,o; continue
            def pre2(st):
                if n.get('var'): yield from s.vardecl(n['var'],st)
                else: yield st,None
            for st1,o in pre2(st0):
                if o is not None: yield st1,o; continue
                for st2,c in s.cond(n['c'],st1):
                    if isinstance(c,Thr): yield st2,('thr',c.name); continue
                    st2,c=s.letS(st2,c,'c')
                    yield from s.merge(st2,c.e,lambda x: s.exec(n['t'],x),
                                       (lambda x: s.exec(n['e'],x)) if n.get('e') else (lambda x: iter([(x,None)])),stmt=True)
    def s_ret(s,n,st):
        if 'e' not in n:
            yield st,('ret',VOID); return
        rt=s.P.ty(st.tu,st.stack[-1].rt.idx) if st.stack[-1].tu is st.tu else st.stack[-1].rt
        for st1,v in s.ev(n['e'],st):
            if isinstance(v,Thr): yield st1,('thr',v.name); continue
            if rt.k!='ref' : v=s.rdref(st1,v)
            yield st1,('ret',v)
    def s_break(s,n,st): yield st,('brk',)
    def s_continue(s,n,st): yield st,('cont',)
    def s_try(s,n,st):
        for st1,o in s.exec(n['b'],st):
            if o is not None and o[0]=='thr':
                h=n['h'][0]
                if 't' in h and len(n['h'])>0:
                    # handler types are not tracked exactly: any handler may take it, or none
                    raise Unsupported('typed catch')
                yield from s.exec(h['b'],st1)
            else: yield st1,o
    def s_switch(s,n,st):
        if n.get('init') or n.get('var'): raise Unsupported('switch with declaration')
        if n['b']['s']!='block': raise Unsupported('switch body')
        items=[]  # (labels, stmt)
        def flat(x,labels):
            while x is not None and x['s'] in('case','default'):
                labels=labels+[x]; x=x['b']
            return labels,x
        for x in n['b']['b']:
            l,y=flat(x,[]); items.append((l,y))
        for st1,v in s.rv(n['c'],st):
            if isinstance(v,Thr): yield st1,('thr',v.name); continue
            v=s.asint(v)
            def run(st,i):
                stmts=[y for _,y in items[i:] if y is not None]
                for st2,o in s.seq(stmts,st):
                    yield st2,(None if o==('brk',) else o)
            def disp(st,i,dflt):
                while i<len(items) and not items[i][0]: i+=1
                if i>=len(items):
                    if dflt is None: yield st,None
                    else: yield from run(st,dflt)
                    return
                c='false'
                for l in items[i][0]:
                    if l['s']=='default': dflt=i
                    else:
                        if 'v2' in l: raise Unsupported('case range')
                        cv=list(s.rv(l['v'],st))[0][1]
                        _,b=s.compare(st,'==',v,cv); c=disj(c,b.e)
                d2=dflt
                if c=='false': yield from disp(st,i+1,d2)
                else: yield from s.merge(st,c,lambda x: run(x,i),lambda x: disp(x,i+1,d2),stmt=True)
            yield from disp(st1,0,None)
    # ---------- loops
    def s_while(s,n,st):
        def cond(st):
            if n.get('var'):
                for st1,o in s.vardecl(n['var'],st):
                    yield from s.cond(n['c'],st1)
            else: yield from s.cond(n['c'],st)
        yield from s.loop(st,cond,lambda x: s.exec(n['b'],x),None,n)
    def s_do(s,n,st):
        yield from s.loop(st,None,lambda x: s.exec(n['b'],x),None,n,post=lambda x: s.cond(n['c'],x))
    def s_for(s,n,st):
        def run(st):
            def inc(x):
                if n.get('inc'):
                    for st1,v in s.ev(n['inc'],x): yield st1,(('thr',v.name) if isinstance(v,Thr) else None)
                else: yield x,None
            yield from s.loop(st,(lambda x: s.cond(n['c'],x)) if n.get('c') else None,lambda x: s.exec(n['b'],x),inc,n)
        if n.get('init'):
            for st1,o in s.exec(n['init'],st):
                if o is not None: yield st1,o
                else: yield from run(st1)
        else: yield from run(st)
    def s_rfor(s,n,st):
        pre=([n['init']] if n.get('init') else [])+[n['range'],n['begin'],n['end']]
        for st1,o in s.seq(pre,st):
            if o is not None: yield st1,o; continue
            def inc(x):
                for st2,v in s.ev(n['inc'],x): yield st2,(('thr',v.name) if isinstance(v,Thr) else None)
            yield from s.loop(st1,lambda x: s.cond(n['c'],x),lambda x: s.seq([n['lv'],n['b']],x),inc,n)
    def iteration(s,st,cond,body,inc,post):
        """one iteration from the head: yields (st, kind, out) kind: 'back' | 'exit'"""
        def after(st1):
            if inc:
                for st2,o in inc(st1):
                    if o is not None: yield st2,'exit',o
                    else: yield st2,'back',None
            elif post:
                for st2,c in post(st1):
                    if isinstance(c,Thr): yield st2,'exit',('thr',c.name); continue
                    for st3,b in s.branch(st2,c.e):
                        if b: yield st3,'back',None
                        else: yield st3,'exit',None
            else: yield st1,'back',None
        def go(st):
            for st1,o in body(st):
                if o is None or o[0]=='cont': yield from after(st1)
                elif o[0]=='brk': yield st1,'exit',None
                else: yield st1,'exit',o
        if cond is None: yield from go(st); return
        for st1,c in cond(st):
            if isinstance(c,Thr): yield st1,'exit',('thr',c.name); continue
            st1,c=s.letS(st1,c,'c')
            for st2,b in s.branch(st1,c.e):
                if b: yield from go(st2)
                else: yield st2,'exit',None
    def difflv(s,a,b,path,out):
        if a is b: return
        if isinstance(a,S) and isinstance(b,S) and a.e==b.e: return
        if isinstance(a,It) and isinstance(b,It) and a.cont==b.cont and a.kind==b.kind:
            if a.idx.e!=b.idx.e: out.add((path+('idx',)))
            return
        if isinstance(a,Obj) and isinstance(b,Obj):
            for k in a.f: s.difflv(a.f[k],b.f[k],path+(k,),out)
            return
        if isinstance(a,(Ref,)) and isinstance(b,Ref) and a.place==b.place: return
        if isinstance(a,BackIt) and isinstance(b,BackIt) and a.place==b.place: return
        if isinstance(a,Ptr) and isinstance(b,Ptr) and a.place==b.place and a.null==b.null: return
        # a pointer carried around the loop: only snapshots of immutable data (the aliasing is lost)
        if isinstance(a,Ptr) and isinstance(b,Ptr) and all(x.place is None or x.place.cid.startswith('rp#') and not x.place.path for x in(a,b)) and a.place is not None: out.add(path+('@',)); return
        if isinstance(a,S) and isinstance(b,S): out.add(path); return
        if (isinstance(a,S) and isinstance(b,Obj)) or (isinstance(a,Obj) and isinstance(b,S)): out.add(path); return
        if a is UNINIT or b is UNINIT: out.add(path); return
        r=s.diff_special(a,b,path,out)
        if r: return
        raise Unsupported(f"loop changes a value beyond the supported shapes: {a} -> {b}")
    def diff_special(s,a,b,path,out): return False
    def getleaf(s,v,path):
        for p in path:
            if p=='idx' and isinstance(v,It): v=v.idx
            elif p=='@': return v
            elif isinstance(v,Obj): v=v.f[p]
            else: raise Unsupported('leaf')
        return v
    def setleaf(s,v,path,nv):
        if not path: return nv
        if path[0]=='idx' and isinstance(v,It): return It(v.cont,nv,v.kind)
        if path[0]=='@': return nv
        f=dict(v.f); f[path[0]]=s.setleaf(v.f[path[0]],path[1:],nv); return Obj(v.ty,f)
    def loop(s,st,cond,body,inc,node,post=None):
        # full unrolling for constant small trip counts is left to literal range loops
        un=s.try_unroll(st,cond,body,inc,node,post)
        if un is not None:
            yield from un; return
        changed=s.changed_leaves(st,cond,body,inc,post)
        L=LoopFn(s,f"{s.name}_L{len(s.loops)+1}")
        if s.dry==0: s.loops.append(L)
        L.label=s.where(st,node)
        L.entry=st; L.leaves=[]
        hs=st.copy(); hs.cells=dict(st.cells)
        hs.tr=T(None,('head',L))
        L.parent=st.tr
        L.par=st.loops
        argmap={}
        entryvals={}
        for (cid,path) in sorted(changed,key=lambda x:(int(x[0].split('#')[-1]) if '#' in x[0] else 0,x[0],str(x[1]))):
            v0=s.getleaf(st.cells[cid],path)
            if path and path[-1]=='@':
                ev=s.rd(st,v0.place); vt=s.vt(v0.ty)
                nm=s.fresh('h_'+cid.split('#')[0].split(':')[0]); nn=s.fresh('h_null')
                s.atoms[nm]=vt; s.atoms[nn]='bool'
                hs,pl=s.newcell(hs,S(nm,vt,v0.ty),'rp')
                hs.cells=dict(hs.cells); hs.cells[cid]=s.setleaf(hs.cells[cid],path,Ptr(pl,nn,v0.ty))
                L.leaves.append((nm,vt,cid,path,'ptrv',v0.ty,v0)); argmap[nm]=s.lower(ev,v0.ty)
                L.leaves.append((nn,'bool',cid,path,'ptrn',None,v0)); argmap[nn]=v0.null
                continue
            nm=s.fresh('h_'+cid.split('#')[0].split(':')[0]+''.join('_'+str(p) for p in path if p!='idx'))
            if path and path[-1]=='idx' and isinstance(s.getleaf(st.cells[cid],path[:-1]),It):
                vt='int'; nv=S(nm,'int',None); kind='it'; arg=v0.e
                it=s.getleaf(st.cells[cid],path[:-1]); meta=it
            elif v0 is UNINIT:
                L.leaves.append(None); hs.cells[cid]=s.setleaf(hs.cells[cid],path,UNINIT); L.leaves.pop(); continue
            else:
                ty=v0.ty
                if isinstance(v0,Obj):
                    v0=s.valS(v0,v0.ty)
                if ty is None:
                    vt=v0.vt; nv=S(nm,vt,None); arg=v0.e; kind='raw'; meta=None
                elif v0.vt=='int':
                    vt=s.vt(ty); nv=s.lift(nm,ty); arg=s.lower(v0,ty); kind='int'; meta=ty
                else:
                    vt=v0.vt; nv=S(nm,vt,ty); arg=v0.e; kind='val'; meta=ty
            s.atoms[nm]=vt
            hs.cells[cid]=s.setleaf(hs.cells[cid],path,nv)
            L.leaves.append((nm,vt,cid,path,kind,meta,v0)); argmap[nm]=arg
        L.rank=1000-len(s.loops)
        L.depth=len(L.par)
        hs.loops=L.par+(L,)
        L.head=hs
        # facts of the entry state stay valid (they speak about immutable names)
        # measure from the condition
        save=s.cmplog; s.cmplog=[]
        s.dry+=1; se=s.ends; s.ends=[]; sl=list(s.loops)
        try:
            if cond: list(cond(hs))
            elif post:
                for x in s.iteration(hs,cond,body,inc,post): pass
        finally:
            s.dry-=1; s.ends=se; s.loops=sl
        cl=s.cmplog; s.cmplog=save
        L.cmps=cl
        L.measure=f"clip({s.pick_measure(L,cl)})"
        L.invs=s.loop_invs(L)
        if s.dry==0:
            s.ends.append((st.tr,('loop',L,argmap)))
        # head: bind measure
        mname=s.fresh('m'); 
        hs=hs.add('let',mname,'int',L.measure); L.mname=mname
        for h in s.loop_hints(L): hs=hs.add('pf',h,None)
        for st1,kind,o in s.iteration(hs,cond,body,inc,post):
            if kind=='exit':
                x=st1.copy(); x.loops=L.par
                yield x,o
            else:
                if s.dry==0:
                    am={}
                    for (nm,vt,cid,path,kd,meta,v0) in L.leaves:
                        v=s.getleaf(st1.cells[cid],path)
                        if kd=='int': am[nm]=s.lower(v,meta)
                        elif kd=='ptrv': am[nm]=s.lower(s.rd(st1,v.place),meta) if v.place is not None else f"arbitrary::<{vt}>()"
                        elif kd=='ptrn': am[nm]=v.null
                        elif kd=='val': am[nm]=s.lower(v,meta) if not isinstance(v,S) else v.e
                        else: am[nm]=v.e
                    s.ends.append((st1.tr,('loop',L,am)))
    def try_unroll(s,st,cond,body,inc,node,post):
        if cond is None: return None
        # unroll when the first test is decided by constants
        s.dry+=1; se=s.ends; s.ends=[]; sl=list(s.loops); cm=s.cmplog
        try:
            r=list(cond(st))
        finally: s.dry-=1; s.ends=se; s.loops=sl; s.cmplog=cm
        if len(r)!=1 or isinstance(r[0][1],Thr) or r[0][1].e not in('true','false'): return None
        def go(st,n):
            if n>40: raise Unsupported('unrolling limit')
            for st1,c in cond(st):
                if c.e=='false': yield st1,None; continue
                if c.e!='true': raise Unsupported('condition becomes symbolic during unrolling')
                for st2,kind,o in s.iteration(st1,None,body,inc,None):
                    if kind=='exit': yield st2,o
                    else: yield from go(st2,n+1)
        # probe: does the loop unroll completely?
        s.dry+=1; se=s.ends; s.ends=[]; sl=list(s.loops)
        try:
            list(go(st,0))
        except Unsupported as ex:
            if 'unrolling' in str(ex): return None
            raise
        finally: s.dry-=1; s.ends=se; s.loops=sl
        return go(st,0)
    def changed_leaves(s,st,cond,body,inc,post):
        changed=set()
        s.dry+=1; se=s.ends; sl=list(s.loops); cm=s.cmplog
        try:
            for rnd in range(8):
                s.ends=[]
                hs=st.copy(); hs.cells=dict(st.cells)
                for cid,path in changed:
                    v0=s.getleaf(hs.cells[cid],path)
                    nm=s.fresh('d')
                    if path and path[-1]=='@':
                        hs,pl=s.newcell(hs,S(nm,s.vt(v0.ty),v0.ty),'rp'); hs.cells=dict(hs.cells)
                        hs.cells[cid]=s.setleaf(hs.cells[cid],path,Ptr(pl,s.fresh('dn'),v0.ty)); continue
                    if v0 is UNINIT: nv=UNINIT
                    elif isinstance(v0,Obj): nv=S(nm,s.vt(v0.ty),v0.ty)
                    elif v0.ty is not None and v0.vt=='int': nv=s.lift(nm,v0.ty)
                    else: nv=S(nm,v0.vt,v0.ty)
                    hs.cells[cid]=s.setleaf(hs.cells[cid],path,nv)
                new=set()
                L=LoopFn(s,'dry'); L.leaves=[]; L.mname='0'; L.rank=0
                hs.loops=st.loops+(L,)
                for st1,kind,o in s.iteration(hs,cond,body,inc,post):
                    if kind!='back': continue
                    for cid in st.cells:
                        a=hs.cells[cid]; b=st1.cells.get(cid)
                        out=set(); s.difflv(a,b,(),out)
                        for p in out: new.add((cid,p))
                # drop leaves nested in other changed leaves
                tot=changed|new
                tot={x for x in tot if not any(y!=x and y[0]==x[0] and x[1][:len(y[1])]==y[1] for y in tot)}
                if tot==changed: return changed
                changed=tot
            raise Unsupported('loop state does not stabilise')
        finally: s.dry-=1; s.ends=se; s.loops=sl; s.cmplog=cm
    def pick_measure(s,L,cl):
        t=s.template_exprs(L,s.ct.measure)
        if t: return t[0][0]
        heads={l[0] for l in L.leaves}
        def uses(e): return any(w in heads for w in re.findall(r'\w+',e))
        for op,a,b in cl:
            if op in('<','<=') and b is not None and (uses(a.e) or uses(b.e)): return f"({b.e}) - ({a.e})"+(' + 1' if op=='<=' else '')
            if op in('>','>=') and b is not None and (uses(a.e) or uses(b.e)): return f"({a.e}) - ({b.e})"+(' + 1' if op=='>=' else '')
        for op,a,b in cl:
            if op in('!=it','==it','<it'):
                if a.kind=='rev': return f"({a.idx.e}) - ({b.idx.e})"
                if uses(a.idx.e) or uses(b.idx.e): return f"({b.idx.e}) - ({a.idx.e})"
        for op,a,b in cl:
            if op=='bool' and uses(a.e) and not a.byte: return a.e
            if op=='!=' and b is not None and (uses(a.e) or uses(b.e)):
                if b.c is not None: return f"abs_({a.e} - {b.e})"
                return f"abs_(({b.e}) - ({a.e}))"
        its=[l for l in L.leaves if l[4]=='it']
        if its: return ' + '.join(f"({s.seqlen(L.head,l[5].cont)} - {l[0]})" if l[5].kind!='rev' else l[0] for l in its)
        return '0'
    def loop_invs(s,L):
        out=[]
        for (nm,vt,cid,path,kind,meta,v0) in L.leaves:
            if kind=='it':
                out.append((f"0 <= {nm} <= {s.seqlen(L.head,meta.cont)}",'auto'))
                if meta.kind!='rev' and v0.c!=0: out.append((f"{v0.e} <= {nm}",'auto'))
            if kind=='int' and v0.c is not None and v0.c>0 : out.append((f"{v0.c} <= {nm}",'auto'))
            if kind=='int' and meta.sg and v0.c==0: out.append((f"0 <= {nm}",'auto'))
        for op,a,b in L.cmps:
            if op=='<': out.append((f"{a.e} <= {b.e}",'auto'))
            if op=='>': out.append((f"{a.e} >= {b.e}",'auto'))
            if op in('!=it',):
                out.append((f"{a.idx.e} <= {b.idx.e}" if a.kind!='rev' else f"{a.idx.e} >= {b.idx.e}",'auto'))
            if op=='!=' and b is not None: out.append((f"{a.e} <= {b.e}",'auto'))
        for t,src in s.template_exprs(L,s.ct.invs): out.append((t,src))
        seen=set(); r=[]
        for x in out:
            if x[0] not in seen: seen.add(x[0]); r.append(x)
        return r
    def loop_hints(s,L): return [t for t,_ in s.template_exprs(L,s.ct.loophints)]
    def template_exprs(s,L,templates):
        """instantiate {name:type} placeholders over the visible storage of the loop head.
        types: int (any changed integer leaf), it (changed iterator index), or a storage type (any changed leaf of it);
        a '=' prefix also admits unchanged local variables, a '^' prefix admits only variables of the enclosing loops."""
        res=[]
        for tp in templates:
            ph=re.findall(r'\{(\w+):([^{}]+)\}',tp)
            names=[]; doms=[]
            for n,ty in ph:
                if n in names: continue
                names.append(n); doms.append(s.leaf_domain(L,ty))
            for combo in itertools.product(*doms):
                if len(set(combo))<len(combo): continue
                m=dict(zip(names,combo))
                res.append((re.sub(r'\{(\w+)(:[^{}]+)?\}',lambda x: m[x.group(1)],tp),tp))
        return res[:400]
    def leaf_domain(s,L,ty):
        d=[]
        loc=False
        up=ty.startswith('^')
        if ty.startswith('=') or up: loc=True; ty=ty[1:]
        for (nm,vt,cid,path,kind,meta,v0) in L.leaves:
            if ty=='it' and kind=='it': d.append(nm)
            elif ty=='int' and kind=='int': d.append(f"({nm} as int)")
            elif ty==vt and kind!='it': d.append(nm)
            elif ty=='pos' and kind in('it','int'): d.append(nm if kind=='it' else f"({nm} as int)")
        if ty=='it' and not any(l[4]=='it' for l in L.leaves): d+=[f"({l[0]} as int)" for l in L.leaves if l[4]=='int'] # a counter in place of an iterator
        if ty.startswith('S_') and not d:
            # a changed local that is still held field by field
            paths={(l[2],l[3][:n]) for l in L.leaves for n in range(len(l[3]))}
            def objs(v,cid,path):
                if isinstance(v,Obj):
                    if (cid,path) in paths and v.ty is not None:
                        try:
                            if s.vt(v.ty)==ty: d.append('('+s.lower(v,v.ty)+')'); return
                        except Unsupported: pass
                    for k,x in v.f.items(): objs(x,cid,path+(k,))
            for cid,v in L.head.cells.items():
                if '#' in cid: objs(v,cid,())
        if loc:
            lv={(l[2],l[3]) for l in L.leaves}
            for cid,v in L.head.cells.items():
                def walk(v,path):
                    if (cid,path) in lv: return
                    if isinstance(v,S):
                        if ty=='int' and v.vt=='int' and v.c is None: d.append(f"({v.e})")
                        elif v.vt==ty and not (v.c is not None): d.append(f"({v.e})")
                    elif isinstance(v,It) and ty in('it','pos'):
                        if (cid,path+('idx',)) not in lv and v.idx.c is None: d.append(f"({v.idx.e})")
                    elif isinstance(v,Obj):
                        for k,x in v.f.items(): walk(x,path+(k,))
                if '#' in cid: walk(v,())
            d=list(dict.fromkeys(d))
        if up: lv={l[0] for l in L.leaves}; d=[x for x in d if re.fullmatch(r'\(?h_\w+\)?',x) and x.strip('()') not in lv]
        return d

def self_trivial(f): return f.trivial and not f.inits and (f.body is None or not f.body.get('b'))
