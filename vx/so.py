"""utils/so: values (mpark::variant as an enum over its alternatives, visiting dispatches to the functor's overloads),
boost::container::vector as a sequence, text written through a std::ostream or std::ostream_iterator<char> as a byte sequence."""
import re
from .core import *
from .prog import *
from .engine import *
from . import stl, poly
SO='drafter::utils::so::'
ALTS=['Null','True','False','String','Number','Object','Array']
ASSUME=['std::ostream and std::ostream_iterator<char> append the bytes written to the text of the stream: failing streams and formatting state (width, fill) are not modelled; mpark::variant is never valueless; the vector of boost::container behaves like std::vector; snprintf is modelled for literal prefixes followed by one zero-padded hexadecimal conversion']
def is_value(t): return t.k=='rec' and stdq(t.n)=='std::variant' and t.args and len(t.args)==len(ALTS) and (t.args[0].key or '')==SO+'Null'
def is_bvec(t): return t.k=='rec' and stdq(t.n)=='boost::container::vector'
def unit(u):
    for X in ALTS: u.alias[SO+X]='V_'+X
    def bv(u,t):
        if not is_bvec(t): return None
        e=u.vt(t.args[0]); return f"Seq<{e}>" if e else None
    u.special['V']=lambda u,t: 'V' if is_value(t) else None
    u.special['BV']=bv
    for X in ALTS:
        t=poly.rec_ty(u.prog,SO+X)
        if t is None or not u.vt(t): raise Unsupported(f"no storage for {X}")
    u.extra['V']="pub enum V { "+', '.join(f"{X}(V_{X})" for X in ALTS)+" }\npub open spec fn hexd(n: int, up: bool) -> u8 { if n < 10 { (48 + n) as u8 } else if up { (55 + n) as u8 } else { (87 + n) as u8 } }\n"
class SEng(Eng):
    def elem_special(s,t): return t.args[0] if is_bvec(t) else None
    def altty(s,X):
        t=poly.rec_ty(s.P,SO+X)
        if t is None: raise Unsupported(X)
        return t
    def step_special(s,st,v,p):
        if p[0]=='alt' and isinstance(v,S) and v.vt=='V': return S(f"{paren(v.e)}->{p[1]}_0",'V_'+p[1],s.altty(p[1]))
        return None
@stl.m('std::visit')
def _(E,st,f,t,obj,vs,e):
    if len(vs)!=2: raise Unsupported('visit of several variants')
    fn,va=vs
    if not isinstance(va,Ref): raise Unsupported('visit of a temporary')
    v=E.rdref(st,va)
    if not(isinstance(v,S) and v.vt=='V'): raise Unsupported('visited variant')
    if not isinstance(fn,Ref): st,pl=E.newcell(st,fn,'fn'); fn=Ref(pl)
    def go(st,i):
        X=ALTS[i]
        def hit(st):
            a=Ref(va.place.step('alt',X))
            c=E.rd(st,fn.place)
            if isinstance(c,Clo): yield from E.callv(st,c,[a],e)
            else: yield from E.call_op(st,fn.place,[a],e)
        if i==len(ALTS)-1: yield from hit(st); return
        for st1,b in E.branch(st,f"({v.e} is {X})"):
            if b: yield from hit(st1)
            else: yield from go(st1,i+1)
    yield from go(st,0)
def alt_of(E,f):
    t=f.ta[0] if f.ta else None
    if isinstance(t,Ty): 
        k=(t.key or '') if t.k=='rec' else ''
        if k.startswith(SO) and k[len(SO):] in ALTS: return k[len(SO):]
    raise Unsupported('alternative by index')
@stl.m('std::holds_alternative')
def _(E,st,f,t,obj,vs,e):
    v=E.rdref(st,vs[0])
    if not(isinstance(v,S) and v.vt=='V'): raise Unsupported('holds_alternative')
    yield st,S(f"({v.e} is {alt_of(E,f)})",'bool',f.rt)
@stl.m('std::get_if')
def _(E,st,f,t,obj,vs,e):
    p=vs[0]; X=alt_of(E,f)
    if not isinstance(p,Ptr) or p.place is None: raise Unsupported('get_if')
    if p.null not in(None,'false'): raise Unsupported('get_if of a possibly null pointer')
    v=E.rd(st,p.place); b=f"!({v.e} is {X})"
    yield st,Ptr(p.place.step('alt',X),b)
_get=stl.M['std::get']
@stl.m('std::get')
def _(E,st,f,t,obj,vs,e):
    v=vs[0]; x=E.rdref(st,v)
    if not(isinstance(x,S) and x.vt=='V'): yield from _get(E,st,f,t,obj,vs,e); return
    X=alt_of(E,f); st=E.ob(st,f"({x.e} is {X})","the value does not hold the alternative asked for",e)
    yield st,Ref(v.place.step('alt',X))
for a in('size','empty','begin','end','cbegin','cend','operator[]','front','back','at'): stl.M['boost::container::vector::'+a]=stl.M['std::vector::'+a]
for a in('operator*','operator->','operator++','operator--','operator+','operator-','operator+=','operator-='): stl.M['boost::container::vec_iterator::'+a]=stl.M['__gnu_cxx::__normal_iterator::'+a]
for a in('operator==','operator!=','operator<','operator>','operator<=','operator>='):
    for n in('boost::container::','boost::container::vec_iterator::'): stl.M[n+a]=stl.M['__gnu_cxx::'+a]
@stl.m('boost::container::vec_iterator::vec_iterator')
def _(E,st,f,t,obj,vs,e): yield st,E.rdref(st,vs[0])
O='std::ostream_iterator::'
for a in('operator*','operator++','operator='): stl.M[O+a]=stl.M['std::back_insert_iterator::'+a]
@stl.m(O+'ostream_iterator')
def _(E,st,f,t,obj,vs,e):
    x=E.rdref(st,vs[0])
    if isinstance(x,BackIt): yield st,x; return
    if len(vs)!=1: raise Unsupported('ostream_iterator with a delimiter')
    yield st,BackIt(vs[0].place)
@stl.m('snprintf')
def _(E,st,f,t,obj,vs,e):
    d=E.rdref(st,vs[0]); n=E.asint(E.rdref(st,vs[1])); fm=E.rdref(st,vs[2])
    if not isinstance(d,It) or d.idx.c!=0 or n.c is None or len(vs)!=4: raise Unsupported('snprintf form')
    c=E.rd(st,fm.cont)
    if not isinstance(c.c,bytes) or fm.idx.c!=0: raise Unsupported('snprintf format')
    m=re.fullmatch(rb'([^%\0]*)%0?(\d*)([xX])([^%\0]*)',c.c)
    if not m or m.group(2) and b'%0' not in c.c: raise Unsupported('snprintf format')
    w=int(m.group(2) or b'1'); up='true' if m.group(3)==b'X' else 'false'
    st,x=E.letS(st,E.asint(E.rdref(st,vs[3])),'x')
    A=E.seqlen(st,d.cont); old=E.rd(st,d.cont)
    if not A.isdigit() and isinstance(old,S) and getattr(old.ty,'len',None): A=str(old.ty.len)
    st=E.ob(st,f"0 <= {x.e} < {16**w}",f"the value has more than {w} hexadecimal digits",e)
    st=E.ob(st,f"{n.c} <= {A}","snprintf writes past the end of the buffer",e)
    if not A.isdigit(): raise Unsupported('snprintf buffer')
    by=[f"{b}u8" for b in m.group(1)]+[f"hexd({x.e} / {16**k} % 16, {up})" if k else f"hexd({x.e} % 16, {up})" for k in reversed(range(w))]+[f"{b}u8" for b in m.group(4)]
    full=len(by); by=by[:n.c-1]+['0u8']
    cty=f.pt[0].to
    l=[S(f"sc({b})",'int',cty,rng=(-128,127),byte=b) for b in by]
    while len(l)<int(A): l.append(E.arbitrary(st,cty))
    st=E.wr(st,d.cont,Lst(l[:int(A)],cty))
    yield st,E.const(full,f.rt)
@stl.m('std::copy')
def _(E,st,f,t,obj,vs,e):
    a,b,o=[E.rdref(st,x) for x in vs[:3]]
    if not isinstance(o,BackIt) or not isinstance(a,It) or not isinstance(b,It) or a.cont!=b.cont or a.kind=='rev': raise Unsupported('std::copy form')
    c=E.rd(st,a.cont); v=E.rd(st,o.place); et=E.elemty(v.ty)
    if isinstance(c,Lst):
        if a.idx.c is None or b.idx.c is None: raise Unsupported('std::copy from literal')
        st=E.ob(st,'true' if 0<=a.idx.c<=b.idx.c<=len(c.vs) else 'false',"invalid iterator range",e)
        x=f"seq![{', '.join(E.lower(y,et) for y in c.vs[a.idx.c:b.idx.c])}]"
        st,r=E.let(st,f"({v.e} + {x})",v.vt)
    else:
        st,src=stl.range_seq(E,st,a,b,e); st,r=E.let(st,f"({v.e} + {src.e})",v.vt)
    yield E.wr(st,o.place,S(r,v.vt,v.ty)),o
