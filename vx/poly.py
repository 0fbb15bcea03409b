"""Polymorphic element trees: refract::IElement is an enum over its final implementations, std::unique_ptr an optional box,
virtual calls dispatch over the implementations, static/dynamic casts are steps between enum and payload."""
import re
from .core import *
from .prog import *
from .engine import *
from . import stl

KINDS=['Null','Holder','String','Number','Boolean','Array','Member','Object','Enum','Ref','Extend','Option','Select']
BASE='refract::IElement'
def ekey(X): return f"refract::Element<refract::dsd::{X}>"
ALIAS={'refract::InfoElements':'IE'}
for X in KINDS: ALIAS[ekey(X)]='E_'+X; ALIAS['refract::dsd::'+X]='D_'+X

def rec_ty(P,key):
    c=P.__dict__.setdefault('rec_tys',{})
    if key in c: return c[key]
    r=P.recs_by_key.get(key)
    if r is None: return None
    t=Ty(); t.k='rec'; t.rec=r.idx; t.tu=r.tu; t.n=r.q; t.key=r.key; t._vt=None; t.s=r.key; t.args=None; t.c=False
    c[key]=t
    return t
def kind_of_ty(t):
    if t is None or t.k!='rec' or not t.key: return None
    m=re.fullmatch(r'refract::Element<refract::dsd::(\w+)>',t.key)
    return m.group(1) if m else None
def is_base(t): return t is not None and t.k=='rec' and stdq(t.n)==BASE

def unit(u):
    u.alias=ALIAS
    u.special['El']=lambda u,t: 'El' if is_base(t) else None
    for X in KINDS:
        t=rec_ty(u.prog,ekey(X))
        if t is None: raise Unsupported(f"element kind {X} not found")
        if not u.vt(t): raise Unsupported(f"no storage for {ekey(X)}")
    ex="pub enum El { "+', '.join(f"{X}(E_{X})" for X in KINDS)+" }\n"
    for f,ty in (('meta_','IE'),('attributes_','IE'),('hasValue_','bool'),('name_','Seq<u8>')):
        ex+=f"pub open spec fn el_{f}(e: El) -> {ty} {{ match e {{ "+', '.join(f"El::{X}(x) => x.{f}" for X in KINDS)+" } }\n"
        ex+=f"pub open spec fn el_set_{f}(e: El, v: {ty}) -> El {{ match e {{ "+', '.join(f"El::{X}(x) => El::{X}(E_{X} {{ {f}: v, ..x }})" for X in KINDS)+" } }\n"
    ex+="pub open spec fn kind(e: El) -> int { match e { "+', '.join(f"El::{X}(_) => {i}" for i,X in enumerate(KINDS))+" } }\n"
    for X in KINDS:
        ex+=f"pub open spec fn upbox_{X}(p: Option<Box<E_{X}>>) -> Option<Box<El>> {{ match p {{ Some(b) => mkbox(El::{X}(*b)), None => None }} }}\n"
        ex+=f"pub open spec fn dnbox_{X}(p: Option<Box<El>>) -> Option<Box<E_{X}>> {{ match p {{ Some(b) => mkbox((*b)->{X}_0), None => None }} }}\n"
    ex+='pub uninterp spec fn addr_same(n: int) -> bool;\n'
    u.extra['El']=ex

class PEng(Eng):
    merge_calls=True
    FIELDS={'meta_':'IE','attributes_':'IE','hasValue_':'bool','name_':'Seq<u8>'}
    def tyof(s,key):
        t=rec_ty(s.P,key)
        if t is None: raise Unsupported(f"record {key}")
        return t
    # ---- place steps
    def upplace(s,pl,X):
        if pl.path and pl.path[-1]==('dn',X): return Place(pl.cid,pl.path[:-1])
        return pl.step('up',X)
    def dnplace(s,pl,X):
        if pl.path and pl.path[-1]==('up',X): return Place(pl.cid,pl.path[:-1])
        return pl.step('dn',X)
    def step_special(s,st,v,p):
        k=p[0]
        if k=='up':
            if isinstance(v,Obj): v=S(s.lower(v,v.ty),s.vt(v.ty),v.ty)
            if v is UNINIT: raise Unsupported('use of a moved-from or freed object')
            return S(f"El::{p[1]}({v.e})",'El',s.tyof(BASE))
        if k=='dn':
            if isinstance(v,S) and v.vt=='El':
                m=re.fullmatch(r'El::(\w+)\((.*)\)',v.e,re.S)
                if m and m.group(1)==p[1] and balanced(m.group(2)): return S(m.group(2),'E_'+p[1],s.tyof(ekey(p[1])))
                return S(f"{paren(v.e)}->{p[1]}_0",'E_'+p[1],s.tyof(ekey(p[1])))
        if k=='vf':
            if isinstance(v,S) and v.vt=='El':
                f=p[1]; fl=dict(s.u.fields(s.tyof(ekey('Null'))))
                return s.lift(f"el_{f}({v.e})",fl[f])
        return None
    def upd_special(s,st,v,p,nv):
        k=p[0]
        if k=='dn':
            t=s.tyof(ekey(p[1])); st,e=s.let(st,f"El::{p[1]}({s.lower(nv,t)})",'El'); return st,S(e,'El',v.ty)
        if k=='up':
            raise Unsupported('assignment through a base reference')
        if k=='vf':
            fl=dict(s.u.fields(s.tyof(ekey('Null'))))
            st,e=s.let(st,f"el_set_{p[1]}({v.e}, {s.lower(nv,fl[p[1]])})",'El'); return st,S(e,'El',v.ty)
        return None
    def upd(s,st,v,path,nv):
        # write below 'up': strip it, the payload cell is updated in place
        if path and path[0][0]=='up':
            X=path[0][1]
            if len(path)>1 and path[1][0]=='vf': return s.upd(st,v,(('f',path[1][1]),)+tuple(path[2:]),nv)
            if len(path)>1 and path[1]==('dn',X): return s.upd(st,v,path[2:],nv)
            raise Unsupported('assignment through a base reference')
        return Eng.upd(s,st,v,path,nv)
    # ---- casts
    def cast_class(s,st,v,ck,ft,tt,e):
        f=ft.to if ft.k in('ptr','ref') else ft; t=tt.to if tt.k in('ptr','ref') else tt
        kf,kt=kind_of_ty(f),kind_of_ty(t)
        if kf and is_base(t):
            if isinstance(v,Ptr): return st,(Ptr(s.upplace(v.place,kf),v.null,v.ty) if v.place is not None else v)
            if isinstance(v,Ref): return st,Ref(s.upplace(v.place,kf))
            if isinstance(v,It): return st,Ptr(s.upplace(s.it_deref(st,v)[1],kf))
            if isinstance(v,(S,Obj)):
                st,pl=s.newcell(st,v); return st,Ref(s.upplace(pl,kf))
            raise Unsupported('cast to base')
        if is_base(f) and kt:
            if isinstance(v,Ptr):
                if v.place is None: return st,v
                pl=v.place
                if not(pl.path and pl.path[-1]==('up',kt)):
                    x=s.rd(st,pl); st=s.ob(st,disj(v.null,f"({x.e} is {kt})"),f"static_cast to {kt} element of another kind",e)
                return st,Ptr(s.dnplace(pl,kt),v.null)
            if isinstance(v,Ref):
                pl=v.place
                if not(pl.path and pl.path[-1]==('up',kt)):
                    x=s.rd(st,pl); st=s.ob(st,f"({x.e} is {kt})",f"static_cast to {kt} element of another kind",e)
                return st,Ref(s.dnplace(pl,kt))
            raise Unsupported('downcast')
        return st,v
    def dyn_cast(s,st,v,t,e):
        tt=t.to if t.k in('ptr','ref') else t
        kt=kind_of_ty(tt)
        if isinstance(v,Ptr) and kt and t.k=='ptr':
            if v.place is None: yield st,v; return
            pl=v.place
            if pl.path and pl.path[-1][0]=='up': c='false' if pl.path[-1][1]==kt else 'true'
            else: c=f"!({s.rd(st,pl).e} is {kt})"
            yield st,Ptr(s.dnplace(pl,kt),disj(v.null,c)); return
        raise Unsupported('dynamic_cast')
    def thisty(s,f):
        # the container interface is a base of its own child type (CRTP): the object is the child
        m=re.match(r'refract::dsd::container_traits<refract::dsd::(\w+),',f.rec.key)
        if m: return s.tyof('refract::dsd::'+m.group(1))
        return Eng.thisty(s,f)
    def sameplace(s,st,a,b):
        if a.place==b.place: return 'true'
        x,y=s.rd(st,a.place),s.rd(st,b.place)
        x=s.lower(x,x.ty) if isinstance(x,Obj) else x.e; y=s.lower(y,y.ty) if isinstance(y,Obj) else y.e
        # addresses are not modelled: two objects may be one, and then they hold the same value
        s.ncell+=1
        return f"(addr_same({s.ncell}) && {x} == {y})"
    def kind_type(s,X): return s.tyof(ekey(X))
    def kinded(s,st,f,obj,vs):
        """a contract stated for arguments of a statically known kind"""
        for c in s.u.contracts.get(stdq(f.q)) or []:
            if not c.kinds or not(c.sig is None or c.sig(f)): continue
            av=([obj] if obj is not None else [])+list(vs)
            names=[re.match(r'\w+',n).group(0) for n in c.params]
            if len(names)!=len(av): continue
            out=[]
            for n,v in zip(names,av):
                if n in c.kinds:
                    if not(isinstance(v,Ref) and v.place.path and v.place.path[-1]==('up',c.kinds[n])): break
                    v=Ref(s.dnplace(v.place,c.kinds[n]))
                out.append(v)
            else:
                return (c,out[0],out[1:]) if obj is not None else (c,None,out)
        return None
    def alias_place(s,pl,rt,pt):
        k=kind_of_ty(rt)
        if k and is_base(pt) and not kind_of_ty(pt): return s.dnplace(pl,k)
        return pl
    # ---- virtual calls
    def override(s,key,f):
        c=s.P.__dict__.setdefault('ovr',{})
        k=(key,f.mg)
        if k in c: return c[k]
        r=None
        def over(g): return any(o.mg==f.mg or over(o) for o in g.overrides)
        for tu in s.P.tus:
            for i in range(len(tu.d['fns'])):
                g=s.P.fn(tu,i)
                if g.rec is not None and g.rec.key==key and (g.mg==f.mg or over(g)) and (r is None or g.has_body): r=g
        if r is None:
            rc=s.P.recs_by_key.get(key)
            for b in (rc.bases if rc else []):
                if b.k=='rec':
                    r=s.override(b.key,f)
                    if r: break
        c[k]=r; return r
    def dynkey(s,st,pl):
        v=s.rd(st,pl)
        if isinstance(v,Obj): return v.ty.key
        if isinstance(v,S) and v.ty is not None and v.ty.k=='rec' and not is_base(v.ty): return v.ty.key
        return None
    def call_virtual(s,st,f,obj,vs,e):
        pl=obj.place
        if pl.path and pl.path[-1][0]=='up':
            X=pl.path[-1][1]; return s.call(st,s.need(ekey(X),f),Ref(s.dnplace(pl,X)),vs,e)
        v=s.rd(st,pl)
        if isinstance(v,S) and v.vt=='El':
            ct=s.graphed(st,f,s.contract_of(f),obj,vs)
            if ct is not None: return s.call_contract(st,f,ct,obj,vs,e)
            u=s.uniform(st,f,vs,e)
            if u is not None:
                if u[0]=='ref': return iter([(st,Ref(Place(pl.cid,pl.path+(('vf',u[1]),)+u[2])))])
                return iter([(st,S(u[1].replace('@E@',v.e),u[2],f.rt if f.rt.k!='ref' else f.rt.to))])
            return s.dispatch(st,f,obj,vs,e)
        k=s.dynkey(st,pl)
        if k is None: raise Unsupported(f"virtual call on {v}")
        g=s.override(k,f)
        if g is None: raise Unsupported(f"no override of {f.q} in {k}")
        if g is f or g.mg==f.mg: return None
        return s.call(st,g,obj,vs,e)
    def need(s,key,f):
        g=s.override(key,f)
        if g is None or not g.has_body: raise Unsupported(f"no definition of {f.q} in {key}")
        return g
    def dispatch(s,st,f,obj,vs,e):
        pl=obj.place; v=s.rd(st,pl).e
        def run(x,X): yield from s.call(x,s.need(ekey(X),f),Ref(s.dnplace(pl,X)),vs,e)
        def go(x,i):
            if i==len(KINDS)-1: yield from run(x.fact(f"({v} is {KINDS[i]})"),KINDS[i]); return
            yield from s.merge(x,f"({v} is {KINDS[i]})",lambda y: run(y,KINDS[i]),lambda y: go(y,i+1))
        yield from go(st,0)
    def uniform(s,st,f,vs,e):
        """accessors that all implementations define alike: ('ref', field, rest) or ('val', expr, vt)"""
        if vs: return None
        c=s.P.__dict__.setdefault('unif',{})
        if f.mg in c: return c[f.mg]
        res=None
        try:
            for X in KINDS:
                g=s.need(ekey(X),f)
                t=s.tyof(ekey(X))
                st0=st.copy(); st0.cells=dict(st.cells); 
                st0,pl=s.newcell(st0,S('X__','E_'+X,t))
                rs=list(s.inline(st0,g,pl,[],e))
                if len(rs)!=1: raise Unsupported('paths')
                st1,v=rs[0]
                if st1.tr is not st0.tr: raise Unsupported('effects')
                if isinstance(v,Ref):
                    if v.place.cid!=pl.cid or not v.place.path or v.place.path[0][0]!='f': raise Unsupported('ref')
                    r=('ref',v.place.path[0][1],v.place.path[1:])
                elif isinstance(v,S):
                    x=re.sub(r'\bX__\.(\w+)',r'el_\1(@E@)',v.e)
                    if 'X__' in x: raise Unsupported('not uniform')
                    r=('val',x,v.vt)
                else: raise Unsupported('result')
                if any(n not in s.FIELDS for n in ([r[1]] if r[0]=='ref' else re.findall(r'el_(\w+)\(@E@\)',r[1]))): raise Unsupported('field')
                if res is not None and r!=res: raise Unsupported('differ')
                res=r
        except Unsupported: res=None
        c[f.mg]=res
        return res
    # ---- moves
    def consume(s,st,ref,x,f):
        pt=f.pt[-1] if f.pt else None
        if isinstance(ref,Ref) and pt is not None and pt.k=='ref' and pt.rv: return s.moved_from(st,ref,None)
        return st
    def moved_from(s,st,ref,t):
        if not isinstance(ref,Ref): return st
        try: v=s.rd(st,ref.place)
        except Unsupported: return st
        if isinstance(v,S) and v.vt.startswith('Option<'): return s.wr(st,ref.place,S('None',v.vt,v.ty))
        if isinstance(v,S) and v.vt=='Seq<u8>' : return s.wr(st,ref.place,S('Seq::<u8>::empty()',v.vt,v.ty))
        if isinstance(v,S) and v.vt.startswith('Seq<'): return s.wr(st,ref.place,S(v.vt.replace('Seq<','Seq::<',1)+'::empty()',v.vt,v.ty))
        if isinstance(v,Obj) and stdq(v.ty.n) in('std::pair','std::tuple'):
            for n in v.f: st=s.moved_from(st,Ref(ref.place.step('f',n)),None)
            return st
        if isinstance(v,S) and v.vt in('int','bool'): return st
        if isinstance(v,S) and v.vt.startswith('('):
            return s.wr(st,ref.place,S(f"uninit::<{v.vt}>()",v.vt,v.ty))
        return st
    def convert_elem(s,st,v,et,f):
        x=s.rdref(st,v)
        st,x=s.coerce(st,v,x,et)
        return st,x
    def coerce(s,st,v,x,et):
        """value x (of expression result v) converted to storage type et (unique_ptr up-conversion included)"""
        if et.k=='rec' and stdq(et.n)=='std::unique_ptr':
            if isinstance(x,Ptr): return up_from_ptr(s,st,x,et)
            src=x.vt; want=s.vt(et)
            if src==want: return st,x
            m=re.fullmatch(r'Option<Box<E_(\w+)>>',src)
            if m and want=='Option<Box<El>>': return st,S(f"upbox_{m.group(1)}({x.e})",want,et)
            raise Unsupported(f"unique_ptr conversion {src} to {want}")
        if et.k=='ptr' and is_base(et.to) and getattr(s.u,'ptrvt',None) and isinstance(x,Ptr):
            # a stored pointer to a constant element: the element itself (addresses are not modelled)
            if not et.to.c or x.place is None or x.null!='false': raise Unsupported('stored element pointer')
            return st,S(s.lower(s.rd(st,x.place),et.to),'El',et)
        return stl.conv(s,st,v,et,None)

def up_from_ptr(E,st,p,t):
    """unique_ptr taking ownership of a raw pointer"""
    vt=E.vt(t)
    if not isinstance(p,Ptr): raise Unsupported(f"unique_ptr from {p}")
    if p.place is None or p.null=='true': return st,S('None',vt,t)
    base=p.place
    x=E.rd(st,base)
    to=t.args[0]
    c=E.lower(x,to)
    root=base.path==() or all(q[0] in('up','dn') for q in base.path)
    if not root or not base.cid.startswith(('new','own')): raise Unsupported('ownership of an object that is not freshly allocated')
    st=st.cell(base.cid,UNINIT)
    return st,S(ite(p.null,'None',f"mkbox({c})"),vt,t)
U='std::unique_ptr::'
def pointee(t): return t.args[0]
def ptype(E,v): return v.ty
m=stl.m
@m(U+'unique_ptr')
def _(E,st,f,t,obj,vs,e):
    vt=E.vt(t)
    if not vs: yield st,S('None',vt,t); return
    x=E.rdref(st,vs[0])
    if isinstance(x,Ptr): st,r=up_from_ptr(E,st,x,t); yield st,r; return
    if isinstance(x,S) and x.vt.startswith('Option<'):
        st2,r=E.coerce(st,vs[0],x,t)
        if isinstance(vs[0],Ref) and vs[0].place.cid in st2.cells: st2=E.wr(st2,vs[0].place,S('None',x.vt,x.ty))
        st2,r=E.letS(st2,r,'up'); yield st2,r; return
    raise Unsupported(f"unique_ptr({x})")
@m(U+'operator=')
def _(E,st,f,t,obj,vs,e):
    v=E.rd(st,obj.place)
    x=E.rdref(st,vs[0])
    if isinstance(x,Ptr):
        if x.null!='true': raise Unsupported('unique_ptr = pointer')
        yield E.wr(st,obj.place,S('None',v.vt,v.ty)),obj; return
    st,r=E.coerce(st,vs[0],x,v.ty); st,r=E.letS(st,r,'up')
    if isinstance(vs[0],Ref): st=E.wr(st,vs[0].place,S('None',x.vt,x.ty))
    yield E.wr(st,obj.place,S(r.e,v.vt,v.ty)),obj
@m(U+'get')
def _(E,st,f,t,obj,vs,e):
    v=E.rd(st,obj.place)
    if v.e=='None': yield st,Ptr(None,'true'); return
    if v.e.startswith('mkbox('): null='false'
    else: null=f"({v.e} is None)"
    yield st,Ptr(obj.place.step('d',pointee(v.ty)),null)
@m(U+'operator*',U+'operator->')
def _(E,st,f,t,obj,vs,e):
    v=E.rd(st,obj.place)
    if not v.e.startswith('mkbox('): st=E.ob(st,f"({v.e} is Some)","null pointer dereference",e)
    pl=obj.place.step('d',pointee(v.ty))
    yield st,(Ref(pl) if f.op=='*' else Ptr(pl))
@m(U+'operator bool')
def _(E,st,f,t,obj,vs,e):
    v=E.rd(st,obj.place); yield st,S(f"({v.e} is Some)" if not v.e.startswith('mkbox(') else 'true','bool',f.rt)
@m(U+'release')
def _(E,st,f,t,obj,vs,e):
    v=E.rd(st,obj.place)
    st,v=E.letS(st,v,'rel')
    if v.e=='None': yield st,Ptr(None,'true'); return
    null='false' if v.e.startswith('mkbox(') else f"({v.e} is None)"
    st,c=E.newcell(st,E.lift(f"(*{paren(v.e)}->Some_0)",pointee(v.ty)),'own')
    st=E.wr(st,obj.place,S('None',v.vt,v.ty))
    yield st,Ptr(c,null)
@m(U+'reset')
def _(E,st,f,t,obj,vs,e):
    v=E.rd(st,obj.place)
    if not vs: yield E.wr(st,obj.place,S('None',v.vt,v.ty)),VOID; return
    x=E.rdref(st,vs[0])
    if isinstance(x,Ptr): st,r=up_from_ptr(E,st,x,v.ty)
    else: raise Unsupported('reset')
    yield E.wr(st,obj.place,r),VOID
@m(U+'~unique_ptr')
def _(E,st,f,t,obj,vs,e): yield st,VOID
@m(U+'swap')
def _(E,st,f,t,obj,vs,e):
    a=E.rd(st,obj.place); b=E.rd(st,vs[0].place)
    st,a=E.letS(st,a,'sw'); st,b=E.letS(st,b,'sw')
    st=E.wr(st,obj.place,S(b.e,a.vt,a.ty)); st=E.wr(st,vs[0].place,S(a.e,b.vt,b.ty)); yield st,VOID

def elemptr(u):
    """pointers to constant elements may be stored; std::function objects are opaque functions"""
    u.ptrvt=lambda t: 'El' if is_base(t.to) and t.to.c else None
    u.special['fn']=lambda u,t: 'int' if stdq(t.n)=='std::function' else None
    u.extra['fn']='pub uninterp spec fn fn_call(f: int, e: El) -> bool;\n'
@m('std::function::operator()')
def _(E,st,f,t,obj,vs,e):
    v=E.rd(st,obj.place)
    if not isinstance(v,S) or v.vt!='int' or len(vs)!=1: raise Unsupported('call of a std::function')
    x=E.rdref(st,vs[0])
    if not is_base(vs[0].place and f.pt[0].to if f.pt[0].k=='ref' else f.pt[0]): raise Unsupported('std::function argument')
    yield st,S(f"fn_call({v.e}, {E.lower(x,f.pt[0].to)})",'bool',f.rt)
