"""Models of the standard library entities used by the code under verification (trusted; see DESIGN.md).

Each model: m(E, st, f, t, obj, vs, e) -> generator of (state, value)."""
from .core import *
from .prog import *
M={}
def m(*names):
    def d(fn):
        for n in names: M[n]=fn
        return fn
    return d
def cur(E,st,obj): return E.rd(st,obj.place)
def intv(E,st,v): return E.asint(E.rdref(st,v))

# ---------------------------------------------------------------- iterators
N='__gnu_cxx::__normal_iterator::'
@m(N+'__normal_iterator','std::reverse_iterator::reverse_iterator')
def _(E,st,f,t,obj,vs,e):
    if not vs: yield st,UNINIT; return
    v=E.rdref(st,vs[0])
    if f.name=='reverse_iterator' and isinstance(v,It) and v.kind!='rev':
        if v.kind!='it': raise Unsupported('reverse iterator over '+v.kind)
        v=It(v.cont,v.idx,'rev')
    yield st,v
@m('std::reverse_iterator::base')
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj); yield st,It(v.cont,v.idx,'it')
@m(N+'operator*','std::reverse_iterator::operator*',N+'operator->','std::reverse_iterator::operator->')
def _(E,st,f,t,obj,vs,e):
    it=cur(E,st,obj); st,pl=E.deref(st,it,e)
    yield st,(Ref(pl) if f.op=='*' else Ptr(pl))
@m(N+'operator[]')
def _(E,st,f,t,obj,vs,e):
    it=cur(E,st,obj); d=intv(E,st,vs[0])
    if it.idx.c is not None and d.c is not None: ix=E.const(it.idx.c+d.c,None)
    else: st,i=E.let(st,f"({it.idx.e} + {d.e})",'int','ix'); ix=S(i,'int',None)
    st,pl=E.deref(st,It(it.cont,ix,it.kind),e); yield st,Ref(pl)
@m(N+'operator++',N+'operator--','std::reverse_iterator::operator++','std::reverse_iterator::operator--')
def _(E,st,f,t,obj,vs,e):
    it=cur(E,st,obj); st,n=E.it_add(st,it,E.const(1 if f.op=='++' else -1,None),e)
    st=E.wr(st,obj.place,n); yield st,(it if vs else obj)
@m(N+'operator=')
def _(E,st,f,t,obj,vs,e):
    yield E.wr(st,obj.place,E.rdref(st,vs[0])),obj
@m(N+'operator+',N+'operator-',N+'operator+=',N+'operator-=')
def _(E,st,f,t,obj,vs,e):
    it=cur(E,st,obj); d=intv(E,st,vs[0])
    if f.op[0]=='-': d=E.const(-d.c,None) if d.c is not None else S(f"(-{d.e})",'int',None)
    st,r=E.it_add(st,it,d,e)
    if f.op.endswith('='): st=E.wr(st,obj.place,r); yield st,obj
    else: yield st,r
@m(N+'base')
def _(E,st,f,t,obj,vs,e): yield st,cur(E,st,obj)
@m('__gnu_cxx::operator==','__gnu_cxx::operator!=','__gnu_cxx::operator<','__gnu_cxx::operator>','__gnu_cxx::operator<=','__gnu_cxx::operator>=','__gnu_cxx::operator-')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs]
    if f.op=='-': yield st,E.it_sub(st,a,b,f.rt)
    else:
        st,r=E.compare(st,f.op,a,b,e); yield st,r
@m('std::advance')
def _(E,st,f,t,obj,vs,e):
    it=E.rd(st,vs[0].place); d=intv(E,st,vs[1])
    st,r=E.it_add(st,it,d,e); yield E.wr(st,vs[0].place,r),VOID
@m('std::next','std::prev')
def _(E,st,f,t,obj,vs,e):
    it=E.rdref(st,vs[0]); d=intv(E,st,vs[1]) if len(vs)>1 else E.const(1,None)
    if f.name=='prev': d=E.const(-d.c,None) if d.c is not None else S(f"(-{d.e})",'int',None)
    st,r=E.it_add(st,it,d,e); yield st,r
@m('std::distance')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs]; yield st,E.it_sub(st,b,a,f.rt)

# ---------------------------------------------------------------- sequences
def seqnames(*ops): return [f"std::{c}::{o}" for c in('vector','deque','list','basic_string') for o in ops]
def is_str(E,v): return v.vt=='Seq<u8>'
@m(*seqnames('size','length'),'std::initializer_list::size','std::array::size')
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj)
    yield st,S(E.seqlen(st,obj.place),'int',f.rt,rng=(0,2**62))
@m(*seqnames('empty'))
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj); yield st,S(f"({v.e}.len() == 0)",'bool',f.rt)
@m(*seqnames('begin','cbegin'),'std::initializer_list::begin','std::array::begin','std::array::cbegin')
def _(E,st,f,t,obj,vs,e): yield st,It(obj.place,E.const(0,None))
@m(*seqnames('end','cend'),'std::initializer_list::end','std::array::end','std::array::cend')
def _(E,st,f,t,obj,vs,e):
    n=E.seqlen(st,obj.place)
    if n.isdigit(): ix=E.const(int(n),None)
    else: ix=S(n,'int',None,rng=(0,2**62))
    yield st,It(obj.place,ix)
@m(*seqnames('rbegin','crbegin'))
def _(E,st,f,t,obj,vs,e): yield st,It(obj.place,S(E.seqlen(st,obj.place),'int',None),'rev')
@m(*seqnames('rend','crend'))
def _(E,st,f,t,obj,vs,e): yield st,It(obj.place,E.const(0,None),'rev')
@m('std::begin','std::end','std::cbegin','std::cend')
def _(E,st,f,t,obj,vs,e):
    o=vs[0] if isinstance(vs[0],Ref) else None
    if o is None: st,pl=E.newcell(st,vs[0]); o=Ref(pl)
    n=E.seqlen(st,o.place)
    if f.name.endswith('begin'): yield st,It(o.place,E.const(0,None))
    else: yield st,It(o.place,E.const(int(n),None) if n.isdigit() else S(n,'int',None,rng=(0,2**62)))
@m(*seqnames('front'))
def _(E,st,f,t,obj,vs,e):
    st,pl=E.it_deref(st,It(obj.place,E.const(0,None)),e); yield st,Ref(pl)
@m(*seqnames('back'))
def _(E,st,f,t,obj,vs,e):
    n=E.seqlen(st,obj.place); st=E.ob(st,f"0 < {n}","back() of an empty container",e)
    yield st,Ref(obj.place.step('i',f"({n} - 1)"))
@m(*seqnames('operator[]'))
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj); i=intv(E,st,vs[0]); n=E.seqlen(st,obj.place)
    st,i=E.letS(st,i,'ix')
    if f.rec is not None and 'basic_string' in f.rec.q:
        st=E.ob(st,f"0 <= {i.e} <= {n}","string index out of range",e); yield st,Ref(obj.place.step('ic',i.e))
    else:
        st=E.ob(st,f"0 <= {i.e} < {n}","container index out of range",e); yield st,Ref(obj.place.step('i',i.e))
@m(*seqnames('at'))
def _(E,st,f,t,obj,vs,e):
    i=intv(E,st,vs[0]); n=E.seqlen(st,obj.place)
    for st1,b in E.branch(st,f"({i.e} < {n})"):
        if b: yield st1,Ref(obj.place.step('i',i.e))
        else: yield st1,Thr('std::out_of_range')
@m(*seqnames('push_back','emplace_back'))
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj); et=E.elemty(v.ty)
    if f.name=='emplace_back':
        if len(vs)==2 and et.k=='rec' and stdq(et.n)=='std::pair':
            fs={}
            for n_,a_,v_ in zip(['first','second'],et.args,vs):
                if a_.k=='rec' and stdq(a_.n)=='std::unique_ptr': st,fs[n_]=E.coerce(st,v_,E.rdref(st,v_),a_)
                else: st,fs[n_]=conv(E,st,v_,a_,e)
                pt_=f.pt[len(f.pt)-2+len(fs)-1] if len(f.pt)>=2 else None
                if isinstance(v_,Ref) and pt_ is not None and pt_.k=='ref' and pt_.rv: st=moved(E,st,v_,a_)
            st,r=E.let(st,f"{v.e}.push({E.lower(Obj(et,fs),et)})",v.vt)
            yield E.wr(st,obj.place,S(r,v.vt,v.ty)),VOID; return
        if len(vs)!=1: raise Unsupported('emplace_back with several arguments')
        st,x=E.convert_elem(st,vs[0],et,f) if hasattr(E,'convert_elem') else (st,E.rdref(st,vs[0]))
    else: x=E.rdref(st,vs[0])
    if isinstance(x,Ptr) and hasattr(E,'convert_elem'): st,x=E.coerce(st,vs[0],x,et)
    if isinstance(x,S) and x.vt=='int': x=E.cast_int(x,et)
    st,r=E.let(st,f"{v.e}.push({E.lower(x,et)})",v.vt)
    st=E.consume(st,vs[0],x,f) if hasattr(E,'consume') else st
    yield E.wr(st,obj.place,S(r,v.vt,v.ty)),(Ref(obj.place.step('i',f"{v.e}.len()")) if f.rt.k=='ref' else VOID)
@m(*seqnames('pop_back'))
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj); st=E.ob(st,f"0 < {v.e}.len()","pop_back() of an empty container",e)
    st,r=E.let(st,f"{v.e}.drop_last()",v.vt); yield E.wr(st,obj.place,S(r,v.vt,v.ty)),VOID
@m(*seqnames('clear'))
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj); yield E.wr(st,obj.place,S(f"{v.vt.replace('Seq<','Seq::<',1)}::empty()",v.vt,v.ty)),VOID
@m(*seqnames('reserve','shrink_to_fit'))
def _(E,st,f,t,obj,vs,e): yield st,VOID
def range_seq(E,st,a,b,e):
    """sequence expression of the iterator range [a,b)"""
    if a.cont!=b.cont: raise Unsupported('range of unrelated iterators')
    v=E.rd(st,a.cont)
    if isinstance(v,Lst): return st,S(E.lower(v,None),None,None)
    n=E.seqlen(st,a.cont)
    if a.kind=='rev': raise Unsupported('reverse range')
    if a.idx.c==0 and b.idx.e==n: return st,v
    st=E.ob(st,f"0 <= {a.idx.e} <= {b.idx.e} <= {n}","invalid iterator range",e)
    if b.idx.e==n and a.idx.c is not None: return st,S(f"{v.e}.skip({a.idx.e})",v.vt,v.ty)
    return st,S(f"{v.e}.subrange({a.idx.e}, {b.idx.e})",v.vt,v.ty)
@m(*seqnames('insert'))
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj); et=E.elemty(v.ty); n=E.seqlen(st,obj.place)
    pos=E.rdref(st,vs[0])
    if not isinstance(pos,It) or pos.cont!=obj.place: raise Unsupported('insert position')
    atend=pos.idx.e==n
    if not atend: st=E.ob(st,f"0 <= {pos.idx.e} <= {n}","insert position out of range",e)
    if len(vs)==3 and isinstance(E.rdref(st,vs[1]),It):
        a=E.rdref(st,vs[1]); b=E.rdref(st,vs[2])
        if a.cont==obj.place: raise Unsupported('insert of own range')
        st,src=range_seq(E,st,a,b,e)
        x=src.e
        r=f"({v.e} + {x})" if atend else f"({v.e}.take({pos.idx.e}) + {x} + {v.e}.skip({pos.idx.e}))"
    elif len(vs)==2:
        x=E.lower(E.rdref(st,vs[1]),et)
        if hasattr(E,'consume'): st=E.consume(st,vs[1],None,f)
        r=f"{v.e}.push({x})" if atend else f"{v.e}.insert({pos.idx.e}, {x})"
    else: raise Unsupported('insert form')
    st,r=E.let(st,r,v.vt)
    st=E.wr(st,obj.place,S(r,v.vt,v.ty)); yield st,It(obj.place,pos.idx)
@m(*seqnames('erase'))
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj); n=E.seqlen(st,obj.place)
    a=E.rdref(st,vs[0])
    if not isinstance(a,It): raise Unsupported('erase form')
    if len(vs)==1:
        st=E.ob(st,f"0 <= {a.idx.e} < {n}","erase position out of range",e)
        r=f"{v.e}.remove({a.idx.e})"
    else:
        b=E.rdref(st,vs[1])
        st=E.ob(st,f"0 <= {a.idx.e} <= {b.idx.e} <= {n}","invalid erase range",e)
        r=f"({v.e}.take({a.idx.e}) + {v.e}.skip({b.idx.e}))"
    st,r=E.let(st,r,v.vt)
    st=E.wr(st,obj.place,S(r,v.vt,v.ty)); yield st,It(obj.place,a.idx)
@m(*seqnames('resize'))
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj); et=E.elemty(v.ty); n=intv(E,st,vs[0])
    x=E.lower(E.rdref(st,vs[1]),et) if len(vs)>1 else E.lower(E.zero(et),et)
    st,r=E.let(st,f"Seq::new({n.e} as nat, |i: int| if i < {v.e}.len() {{ {v.e}[i] }} else {{ {x} }})",v.vt)
    yield E.wr(st,obj.place,S(r,v.vt,v.ty)),VOID
@m(*seqnames('swap'))
def _(E,st,f,t,obj,vs,e):
    a=cur(E,st,obj); b=E.rdref(st,vs[0]); st=E.wr(st,obj.place,b); yield E.wr(st,vs[0].place,a),VOID
@m('std::swap')
def _(E,st,f,t,obj,vs,e):
    a=E.rdref(st,vs[0]); b=E.rdref(st,vs[1]); st=E.wr(st,vs[0].place,b); yield E.wr(st,vs[1].place,a),VOID
def cstr_seq(E,st,v,e):
    """contents of a C string designated by v as Seq expression (up to the terminator)"""
    if isinstance(v,It) and v.kind=='cstr':
        c=E.rd(st,v.cont)
        if isinstance(c.c,bytes) and v.idx.c==0 and b'\0' not in c.c: return st,S(c.e,'Seq<u8>',None)
        raise Unsupported('C string conversion')
    raise Unsupported('C string conversion')
def seq_ctor(E,st,f,t,obj,vs,e):
    args=[E.rdref(st,v) for v in vs]
    vt=E.vt(t)
    em=vt.replace('Seq<','Seq::<',1)+'::empty()'
    if args and isinstance(args[-1],Obj) : pass
    args=[a for a in args if not(isinstance(a,S) and a.ty is not None and a.ty.k=='rec' and 'allocator' in (a.ty.n or '')) and not (isinstance(a,Obj) and 'allocator' in (a.ty.n or ''))]
    if not args: yield st,S(em,vt,t); return
    a=args[0]
    if len(args)==1:
        if isinstance(a,S) and a.vt==vt:
            if f.move and isinstance(vs[0],Ref): st=E.wr(st,vs[0].place,S(em,vt,t))
            yield st,S(a.e,vt,t); return
        if isinstance(a,It): st,x=cstr_seq(E,st,a,e); yield st,S(x.e,vt,t); return
        if isinstance(a,Lst): yield st,S(f"seq![{', '.join(E.lower(x,a.ty) for x in a.vs)}]" if a.vs else em,vt,t); return
        if isinstance(a,S) and a.vt=='int':
            et=E.elemty(t); yield st,S(f"Seq::new({a.e} as nat, |i: int| {E.lower(E.zero(et),et)})",vt,t); return
    if len(args)==2 and isinstance(a,It) and isinstance(args[1],It):
        st,x=range_seq(E,st,a,args[1],e); yield st,S(x.e,vt,t); return
    if len(args)==2 and isinstance(a,It) and isinstance(args[1],S):
        n=E.seqlen(st,a.cont); st=E.ob(st,f"0 <= {a.idx.e} && 0 <= {args[1].e} && {a.idx.e} + {args[1].e} <= {n}","string constructor range",e)
        c=E.rd(st,a.cont); yield st,S(f"{c.e}.subrange({a.idx.e}, {a.idx.e} + {args[1].e})",vt,t); return
    if len(args)==2 and isinstance(a,S) and a.vt=='int' and isinstance(args[1],S):
        et=E.elemty(t); yield st,S(f"Seq::new({a.e} as nat, |i: int| {E.lower(args[1],et)})",vt,t); return
    if len(args)==3 and vt=='Seq<u8>' and isinstance(a,S) and a.vt==vt and isinstance(args[1],S) and isinstance(args[2],S):
        pos=E.asint(args[1]); n=E.asint(args[2]); l=E.seqlen(st,vs[0].place) if isinstance(vs[0],Ref) else f"{a.e}.len()"
        st,pos=E.letS(st,pos,'pos'); st,n=E.letS(st,n,'cnt')
        for st1,b in E.branch(st,f"({pos.e} <= {l})"):
            if not b: yield st1,Thr('std::out_of_range'); continue
            E.u.extra['substr_']=SUBSTR
            st1,r=E.let(st1,f"substr_({a.e}, {pos.e}, {n.e})",'Seq<u8>','sub'); yield st1,S(r,'Seq<u8>',t)
        return
    raise Unsupported(f"constructor of {t.s}")
for c in('vector','deque','list','basic_string','initializer_list'): M[f"std::{c}::{c}"]=seq_ctor
@m('std::allocator::allocator')
def _(E,st,f,t,obj,vs,e): yield st,Obj(t,{})
@m(*seqnames('operator='),'std::basic_string::assign')
def _(E,st,f,t,obj,vs,e):
    if len(vs)==2:
        a,b=[E.rdref(st,x) for x in vs]
        if not isinstance(a,It): raise Unsupported('assign form')
        st,x=range_seq(E,st,a,b,e)
    else:
        a=E.rdref(st,vs[0])
        v=cur(E,st,obj)
        if isinstance(a,It): st,x=cstr_seq(E,st,a,e)
        elif isinstance(a,Lst): x=S(f"seq![{', '.join(E.lower(y,a.ty) for y in a.vs)}]",v.vt,v.ty)
        else: x=a
    v=cur(E,st,obj)
    st1=E.wr(st,obj.place,S(x.e,v.vt,v.ty))
    if f.move and isinstance(vs[0],Ref) and vs[0].place!=obj.place: st1=E.wr(st1,vs[0].place,S(v.vt.replace('Seq<','Seq::<',1)+'::empty()',v.vt,v.ty))
    yield st1,obj
# strings
@m('std::vector::data')
def _(E,st,f,t,obj,vs,e): yield st,It(obj.place,E.const(0,None))
@m('std::basic_string::c_str','std::basic_string::data')
def _(E,st,f,t,obj,vs,e): yield st,It(obj.place,E.const(0,None),'cstr')
@m('std::basic_string::substr')
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj); pos=intv(E,st,vs[0]) if vs else E.const(0,None)
    n=E.seqlen(st,obj.place)
    st,p=E.letS(st,pos,'pos')
    for st1,b in E.branch(st,f"({p.e} <= {n})"):
        if not b: yield st1,Thr('std::out_of_range'); continue
        if len(vs)<2 : r=f"{v.e}.skip({p.e})"
        else:
            c=intv(E,st1,vs[1])
            if c.c==2**64-1: r=f"{v.e}.skip({p.e})"
            else: r=f"substr_({v.e}, {p.e}, {c.e})"; E.u.extra['substr_']=SUBSTR
        st1,r=E.let(st1,r,'Seq<u8>','sub'); yield st1,S(r,'Seq<u8>',f.rt if f.rt.k=='rec' else v.ty)
@m('std::basic_string::find')
def _(E,st,f,t,obj,vs,e):
    # position of the first occurrence of a character, npos (2^64-1) without one
    x=E.rdref(st,vs[0])
    if len(vs)>1 and not (isinstance(E.rdref(st,vs[1]),S) and E.rdref(st,vs[1]).c==0) or not(isinstance(x,S) and x.vt=='int') or E.pure: raise Unsupported('string search form')
    v=cur(E,st,obj); n=E.seqlen(st,obj.place); b=lb(E,x)[1:-1]; E.u.extra['find_']=FINDLIB
    pn=E.fresh('p'); st=st.add('let',pn,'spec_fn(int) -> bool',f"|j: int| {v.e}[j] == {b}")
    st=st.add('pf',f"lem_find({pn}, 0, {n});",None)
    st,i=E.let(st,f"find_({pn}, 0, {n})",'int','ix')
    st=st.add('pf',f"assert(0 <= {i} <= {n} && ({i} < {n} ==> {v.e}[{i}] == {b}));",None)
    st=st.add('pf',f"assert forall|j: int| #![trigger {v.e}[j]] 0 <= j < {i} implies {v.e}[j] != {b} by {{ assert(!{pn}(j)); }}",None)
    st,r=E.let(st,f"(if {i} < {n} {{ {i} }} else {{ {2**64-1} }})",'int','pos'); yield st,S(r,'int',f.rt,rng=(0,2**64-1))
SUBSTR='''pub open spec fn substr_(s: Seq<u8>, p: int, n: int) -> Seq<u8> { if p + n >= s.len() { s.skip(p) } else { s.subrange(p, p + n) } }'''
def strval(E,st,v,e):
    v=E.rdref(st,v)
    if isinstance(v,It): st,x=cstr_seq(E,st,v,e); return st,x.e
    if isinstance(v,S) and v.vt=='Seq<u8>': return st,v.e
    if isinstance(v,S) and v.vt=='int': return st,f"seq![{E.lower(v,chty(v))}]" if False else f"seq!{lb(E,v)}"
    raise Unsupported(f"string value {v}")
def lb(E,v):
    b=f"({v.byte} as u8)" if v.byte else f"{v.c%256}u8" if v.c is not None else f"(uc({v.e}) as u8)"
    import re
    m=re.fullmatch(r'\(\((\w+\[[^\]]*\]|\w+) as int\) as u8\)',b)
    if m: b=m.group(1)
    return f"[{b}]"
@m('std::operator+')
def _(E,st,f,t,obj,vs,e):
    st,a=strval(E,st,vs[0],e); st,b=strval(E,st,vs[1],e)
    st,r=E.let(st,f"({a} + {b})",'Seq<u8>'); yield st,S(r,'Seq<u8>',f.rt)
@m('std::basic_string::operator+=','std::basic_string::append')
def _(E,st,f,t,obj,vs,e):
    if len(vs)!=1: raise Unsupported('append form')
    v=cur(E,st,obj); st,b=strval(E,st,vs[0],e)
    r=f"{v.e}.push({b[5:-1]})" if b.startswith('seq![') and ',' not in b and b!='seq![]' else f"({v.e} + {b})"
    st,r=E.let(st,r,'Seq<u8>'); yield E.wr(st,obj.place,S(r,v.vt,v.ty)),obj
@m('std::operator==','std::operator!=')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs]
    r=eqv(E,st,a,b,e)
    if r is None:
        for x,y in ((a,b),(b,a)):
            if isinstance(x,S) and x.vt=='Seq<u8>' and isinstance(y,It) and y.kind=='cstr':
                st,z,_=cstr_of(E,st,y,e); r=f"({x.e} =~= {z})"; break
    if r is None: raise Unsupported(f"operator{f.op} on {a}, {b}")
    st,r=E.let(st,r,'bool') if len(r)>80 else (st,r)
    yield st,S(r if f.op=='==' else neg(r),'bool',f.rt)
def eqv(E,st,a,b,e):
    """std equality as boolean expression; None when unknown"""
    if isinstance(a,Obj) and isinstance(b,Obj) and a.f.keys()==b.f.keys():
        r='true'
        for k in a.f:
            x=eqv(E,st,a.f[k],b.f[k],e)
            if x is None: return None
            r=conj(r,x)
        return r
    if isinstance(a,It) and isinstance(b,It) and 'cstr' not in(a.kind,b.kind):
        _,r=E.compare(st,'==',a,b,e); return r.e
    if isinstance(a,S) and isinstance(b,S):
        if a.vt in('int','bool') and b.vt in('int','bool'):
            _,r=E.compare(st,'==',a,b,e); return r.e
        if a.vt==b.vt and a.vt=='Seq<u8>': return f"({a.e} =~= {b.e})"
        if a.vt.startswith('Option<') and b.vt.startswith('Option<'): return None
        if a.vt==b.vt and a.vt in('Seq<u64>','Seq<bool>'): return f"({a.e} =~= {b.e})"
    if isinstance(a,It) or isinstance(b,It):
        try:
            _,x=strval(E,st,a,e); _,y=strval(E,st,b,e); return f"({x} =~= {y})"
        except Unsupported: pass
    if isinstance(a,Ptr) or isinstance(b,Ptr):
        _,r=E.compare(st,'==',a,b,e); return r.e
    return None
# ---------------------------------------------------------------- pairs, tuples, moves
@m('std::move','std::forward','std::addressof')
def _(E,st,f,t,obj,vs,e):
    if len(vs)!=1: raise Unsupported('std::move algorithm')
    yield st,(vs[0] if f.name!='addressof' else Ptr(vs[0].place))
@m('std::pair::pair','std::tuple::tuple')
def _(E,st,f,t,obj,vs,e):
    names=['first','second'] if 'pair' in f.q else [str(i) for i in range(len(t.args))]
    if not vs: yield st,Obj(t,{n:E.zero(a) for n,a in zip(names,t.args)}); return
    if len(vs)==1 and len(names)!=1 or f.copy or f.move:
        v=E.rdref(st,vs[0])
        if f.move: st=moved(E,st,vs[0],t)
        yield st,v; return
    fs={}
    for n,a,v in zip(names,t.args,vs):
        st,fs[n]=conv(E,st,v,a,e)
    yield st,Obj(t,fs)
def moved(E,st,ref,t): return E.moved_from(st,ref,t) if hasattr(E,'moved_from') else st
def conv(E,st,v,t,e):
    """implicit conversion of an argument to type t (used by perfect-forwarding constructors)"""
    if t.k=='ref': return st,v
    x=E.rdref(st,v)
    if t.k in('int','enum','bool') and isinstance(x,S): return st,E.cast_int(x,t) if t.k!='bool' else E.tobool(x)
    if isinstance(x,It) and x.kind=='cstr' and t.k=='rec' and 'basic_string' in t.n:
        st,y=cstr_seq(E,st,x,e); return st,S(y.e,'Seq<u8>',t)
    if isinstance(v,Ref) and v.place.cid.startswith('lit:') and t.k=='rec': return st,S(E.rd(st,v.place).e,'Seq<u8>',t)
    return st,x
@m('std::pair::operator=','std::tuple::operator=')
def _(E,st,f,t,obj,vs,e):
    v=E.rdref(st,vs[0]); yield E.wr(st,obj.place,v),obj
@m('std::make_pair','std::make_tuple')
def _(E,st,f,t,obj,vs,e):
    t=f.rt; names=['first','second'] if f.name=='make_pair' else [str(i) for i in range(len(t.args))]
    fs={}
    for n,a,v in zip(names,t.args,vs): st,fs[n]=conv(E,st,v,a,e)
    yield st,Obj(t,fs)
@m('std::get')
def _(E,st,f,t,obj,vs,e):
    i=f.ta[0] if isinstance(f.ta[0],int) else None
    if i is None: raise Unsupported('std::get by type')
    v=vs[0]; pt=f.pt[0].to if f.pt[0].k=='ref' else f.pt[0]
    if stdq(pt.n)=='std::pair': n=['first','second'][i]
    else: n=str(i)
    if not isinstance(v,Ref): st,pl=E.newcell(st,v); v=Ref(pl)
    yield st,Ref(v.place.step('f',n))
# ---------------------------------------------------------------- algorithms on sorted ranges
BOUND='''pub open spec fn sorted_u64(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
pub open spec fn upper_(s: Seq<u64>, x: int) -> int decreases s.len() { if s.len() == 0 { 0 } else if (s.last() as int) > x { upper_(s.drop_last(), x) } else { s.len() as int } }
pub open spec fn lower_(s: Seq<u64>, x: int) -> int decreases s.len() { if s.len() == 0 { 0 } else if (s.last() as int) >= x { lower_(s.drop_last(), x) } else { s.len() as int } }
pub proof fn upper_prop(s: Seq<u64>, x: int) ensures 0 <= upper_(s, x) <= s.len(),
    upper_(s, x) > 0 ==> s[upper_(s, x) - 1] <= x,
    forall|i: int| upper_(s, x) <= i < s.len() ==> s[i] > x decreases s.len() {
    if s.len() > 0 && (s.last() as int) > x { upper_prop(s.drop_last(), x);
      assert forall|i: int| upper_(s, x) <= i < s.len() implies s[i] > x by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } } }
pub proof fn lower_prop(s: Seq<u64>, x: int) ensures 0 <= lower_(s, x) <= s.len(),
    lower_(s, x) > 0 ==> s[lower_(s, x) - 1] < x,
    forall|i: int| lower_(s, x) <= i < s.len() ==> s[i] >= x decreases s.len() {
    if s.len() > 0 && (s.last() as int) >= x { lower_prop(s.drop_last(), x);
      assert forall|i: int| lower_(s, x) <= i < s.len() implies s[i] >= x by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } } }'''
@m('std::upper_bound','std::lower_bound')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs[:2]]
    if len(vs)!=3: raise Unsupported('bound with comparator')
    v=E.rd(st,a.cont); n=E.seqlen(st,a.cont)
    if a.idx.c!=0 or b.idx.e!=n or v.vt!='Seq<u64>': raise Unsupported('bound on partial range')
    x=intv(E,st,vs[2]); E.u.extra['bounds']=BOUND
    st=E.ob(st,f"sorted_u64({v.e})","binary search on an unsorted range",e)
    st=st.add('pf',f"{'upper' if 'upper' in f.name else 'lower'}_prop({v.e}, {x.e});",None)
    st,i=E.let(st,f"{'upper_' if 'upper' in f.name else 'lower_'}({v.e}, {x.e})",'int','ix')
    yield st,It(a.cont,S(i,'int',None))
# ---------------------------------------------------------------- streams (byte sinks)
def stream_out(E,st,obj,x):
    v=E.rd(st,obj.place)
    r=f"{v.e}.push({x[5:-1]})" if x.startswith('seq![') and ',' not in x else f"({v.e} + {x})"
    st,r=E.let(st,r,'Seq<u8>','os'); return E.wr(st,obj.place,S(r,v.vt,v.ty))
@m('std::operator<<','std::basic_ostream::operator<<','std::basic_ostream::write','std::basic_ostream::put')
def _(E,st,f,t,obj,vs,e):
    o=obj if obj is not None else vs[0]; a=vs if obj is not None else vs[1:]
    if f.name=='write': raise Unsupported('ostream::write')
    x=E.rdref(st,a[0])
    pt=f.pt[-1]
    if isinstance(x,S) and x.vt=='int' and not(pt.k=='int' and pt.bits==8):
        raise Unsupported('numeric stream output')
    st,b=strval(E,st,a[0],e)
    yield stream_out(E,st,o,b),o
@m('std::basic_stringstream::str','std::basic_ostringstream::str')
def _(E,st,f,t,obj,vs,e):
    if vs: raise Unsupported('str(s)')
    v=cur(E,st,obj); yield st,S(v.e,'Seq<u8>',f.rt)
@m('std::basic_stringstream::basic_stringstream','std::basic_ostringstream::basic_ostringstream')
def _(E,st,f,t,obj,vs,e):
    if vs and isinstance(E.rdref(st,vs[0]),S) and E.rdref(st,vs[0]).vt=='Seq<u8>': yield st,S(E.rdref(st,vs[0]).e,'Seq<u8>',t); return
    yield st,S('Seq::<u8>::empty()','Seq<u8>',t)
# ---------------------------------------------------------------- bitset
@m('std::bitset::test')
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj); i=intv(E,st,vs[0])
    for st1,b in E.branch(st,f"({i.e} < {v.e}.len())"):
        if b: yield st1,S(f"{v.e}[{i.e}]",'bool',f.rt)
        else: yield st1,Thr('std::out_of_range')
@m('std::bitset::operator[]')
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj); i=intv(E,st,vs[0]); st=E.ob(st,f"0 <= {i.e} < {v.e}.len()","bit index out of range",e)
    if f.rt.k!='bool': raise Unsupported('bitset reference')
    yield st,S(f"{v.e}[{i.e}]",'bool',f.rt)
@m('std::bitset::set','std::bitset::reset')
def _(E,st,f,t,obj,vs,e):
    v=cur(E,st,obj)
    if not vs: raise Unsupported('bitset form')
    i=intv(E,st,vs[0]); x=(E.tobool(E.rdref(st,vs[1])).e if len(vs)>1 else 'true') if f.name=='set' else 'false'
    for st1,b in E.branch(st,f"({i.e} < {v.e}.len())"):
        if b:
            st1,r=E.let(st1,f"{v.e}.update({i.e}, {x})",v.vt); yield E.wr(st1,obj.place,S(r,v.vt,v.ty)),obj
        else: yield st1,Thr('std::out_of_range')
@m('std::bitset::bitset')
def _(E,st,f,t,obj,vs,e):
    if vs and not f.copy and not f.move:
        x=intv(E,st,vs[0])
        if x.c!=0: raise Unsupported('bitset constructor')
        yield st,E.zero(t); return
    yield st,(E.rdref(st,vs[0]) if vs else E.zero(t))
# ---------------------------------------------------------------- ctype
@m('tolower','toupper','std::tolower','std::toupper')
def _(E,st,f,t,obj,vs,e):
    x=intv(E,st,vs[0])
    E.u.assumptions.add('ctype functions follow the "C" locale and glibc\'s tables (defined for every value of char)')
    lo,hi,d=('65','90','+ 32') if 'lower' in f.name else ('97','122','- 32')
    st,x=E.letS(st,x)
    r=x.rng or (-2**31,2**31-1)
    lowneg=f"if -128 <= {x.e} < -1 {{ {x.e} + 256 }} else " if r[0]<-1 else ''
    yield st,S(f"(if {lo} <= {x.e} <= {hi} {{ {x.e} {d} }} else {lowneg}{{ {x.e} }})",'int',f.rt)
def ctype(name,cond):
    def fn(E,st,f,t,obj,vs,e):
        x=intv(E,st,vs[0]); st,x=E.letS(st,x)
        E.u.assumptions.add('ctype functions follow the "C" locale and glibc\'s tables (defined for every value of char)')
        yield st,S(f"(if {cond.replace('X',x.e)} {{ 1int }} else {{ 0int }})",'int',f.rt,rng=(0,1))
    M[name]=fn; M['std::'+name]=fn
ctype('isspace','(X == 32 || (9 <= X && X <= 13))')
ctype('iscntrl','((0 <= X && X < 32) || X == 127)')
ctype('isdigit','(48 <= X && X <= 57)')
ctype('isalpha','((65 <= X && X <= 90) || (97 <= X && X <= 122))')
ctype('isalnum','((48 <= X && X <= 57) || (65 <= X && X <= 90) || (97 <= X && X <= 122))')

# ---------------------------------------------------------------- output iterators
B='std::back_insert_iterator::'
@m(B+'operator*',B+'operator++')
def _(E,st,f,t,obj,vs,e): yield st,obj
@m(B+'operator=')
def _(E,st,f,t,obj,vs,e):
    b=cur(E,st,obj)
    if not isinstance(b,BackIt): raise Unsupported('assignment between output iterators')
    x=E.rdref(st,vs[0])
    if isinstance(x,BackIt): yield E.wr(st,obj.place,x),obj; return
    v=E.rd(st,b.place); et=E.elemty(v.ty)
    if isinstance(x,S) and x.vt=='int': x=E.cast_int(x,et)
    st,r=E.let(st,f"{v.e}.push({E.lower(x,et)})",v.vt)
    yield E.wr(st,b.place,S(r,v.vt,v.ty)),obj
@m(B+'back_insert_iterator')
def _(E,st,f,t,obj,vs,e):
    x=E.rdref(st,vs[0])
    yield st,(x if isinstance(x,BackIt) else BackIt(vs[0].place))
@m('std::back_inserter')
def _(E,st,f,t,obj,vs,e): yield st,BackIt(vs[0].place)

@m('std::min','std::max')
def _(E,st,f,t,obj,vs,e):
    if len(vs)!=2: raise Unsupported(f.q+' form')
    a,b=[intv(E,st,x) for x in vs]
    st,a=E.letS(st,a); st,b=E.letS(st,b)
    if a.c is not None and b.c is not None: yield st,E.const((min if f.name=='min' else max)(a.c,b.c),a.ty); return
    c=f"{b.e} < {a.e}" if f.name=='min' else f"{a.e} < {b.e}"
    r=None
    if a.rng and b.rng: r=((min if f.name=='min' else max)(a.rng[0],b.rng[0]),(min if f.name=='min' else max)(a.rng[1],b.rng[1]))
    st,x=E.let(st,f"(if {c} {{ {b.e} }} else {{ {a.e} }})",'int','mm'); yield st,S(x,'int',a.ty or b.ty,rng=r)

# ---------------------------------------------------------------- algorithms with predicates
def purepaths(E,st,run,tov=None):
    """run a side-effect free computation on every path; returns (expression of its boolean/int result, obligation nodes)"""
    ne=len(E.ends)
    E.pure+=1
    try: rs=list(run(st))
    finally: E.pure-=1
    if len(E.ends)!=ne: raise Unsupported('predicate with loops or exceptions')
    paths=[]
    for st1,v in rs:
        if isinstance(v,Thr): raise Unsupported('predicate may throw')
        for cid,x in st.cells.items():
            if st1.cells.get(cid) is not x: raise Unsupported('predicate with side effects')
        if tov:
            st1,x=tov(st1,v); paths.append((st1.tr.nodes(st.tr),x)); continue
        v=E.rdref(st1,v)
        if isinstance(v,S) and v.vt=='int' or isinstance(v,Ptr): v=E.tobool(v)
        if not isinstance(v,S) or v.vt!='bool': raise Unsupported('predicate result')
        paths.append((st1.tr.nodes(st.tr),v.e))
    from . import gen
    def fold(ps,i):
        pre=[]; lets=[]
        while True:
            if len(ps)==1 and i==len(ps[0][0]):
                return gen.pure_expr(lets,ps[0][1]),pre
            n=ps[0][0][i]
            if n[0]=='br':
                y=[q for q in ps if q[0][i][3]]; z=[q for q in ps if not q[0][i][3]]
                if not y or not z: raise Unsupported('predicate paths')
                a,an=fold(y,i+1); b,bn=fold(z,i+1)
                if any(x[0]!='let' for x in an+bn): pre.append(('mif',n[2],an,bn,[]))
                x=ite(n[2],a,b)
                return gen.pure_expr(lets,x),pre
            if n[0] in('let','mif'): lets.append(n); pre.append(n)
            elif n[0] in('pf','forall') or n[0]=='call' and n[7]: pre.append(n)
            else: raise Unsupported('predicate calls a function under contract')
            i+=1
    return fold(paths,0)
FINDLIB='''pub open spec fn find_(p: spec_fn(int) -> bool, lo: int, hi: int) -> int decreases clip(hi - lo) { if lo >= hi { hi } else if p(lo) { lo } else { find_(p, lo + 1, hi) } }
pub proof fn lem_find(p: spec_fn(int) -> bool, lo: int, hi: int) requires lo <= hi
  ensures lo <= find_(p, lo, hi) <= hi, find_(p, lo, hi) < hi ==> p(find_(p, lo, hi)), forall|j: int| lo <= j < find_(p, lo, hi) ==> !(#[trigger] p(j)) decreases hi - lo
{ if lo < hi && !p(lo) { lem_find(p, lo + 1, hi); } }'''
def anyplace(E,st,it):
    """place and sequence text of the container an iterator points into"""
    v=E.rd(st,it.cont)
    if isinstance(v,Lst): raise Unsupported('algorithm over literal list')
    return v
def quant(E,st,lo,hi,cont,run,e,pat=None):
    """predicate text over index j of a container, obligations emitted; returns st, jname, text"""
    j=E.fresh('q'); E.atoms[j]='int'
    c=f"{lo} <= {j} < {hi}"
    st0=st.copy(); st0.facts=st.facts|{c}
    ex,nodes=purepaths(E,st0,lambda x: run(x,j))
    obs=[n for n in nodes if n[0]!='let']
    if obs: st=st.add('forall',j,c,nodes)
    return st,j,ex
def chk_range(E,st,a,b,e,rev=False):
    if not(isinstance(a,It) and isinstance(b,It)) or a.cont!=b.cont or a.kind!=b.kind or a.kind=='rev' and not rev: raise Unsupported('iterator range')
    n=E.seqlen(st,a.cont)
    if a.kind=='rev': a,b=b,a
    if not(a.idx.c==0 and b.idx.e==n): st=E.ob(st,f"0 <= {a.idx.e} <= {b.idx.e} <= {n}","invalid iterator range",e)
    return st
def trig(E,v,j): return f"#![trigger {paren_(v.e)}[{j}]]"
def paren_(e):
    from .engine import paren
    return paren(e)
@m('std::find_if','std::find','std::find_if_not')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs[:2]]
    st=chk_range(E,st,a,b,e); v=E.rd(st,a.cont)
    if isinstance(v,Lst): raise Unsupported('find in literal list')
    def run(x,j):
        el=Ref(a.cont.step('i',j))
        if f.name=='find':
            r=eqv(E,x,E.rd(x,el.place),E.rdref(x,vs[2]),e)
            if r is None: raise Unsupported('find: equality')
            yield x,S(r,'bool')
        else: yield from E.callv(x,E.rdref(x,vs[2]),[el],e)
    st,j,ex=quant(E,st,a.idx.e,b.idx.e,a.cont,run,e)
    if f.name=='find_if_not': ex=neg(ex)
    E.u.extra['find_']=FINDLIB
    if E.pure:
        # inside a predicate: comparing with the end of the range asks whether a match exists
        r=It(a.cont,S(f"find_(|{j}: int| {ex}, {a.idx.e}, {b.idx.e})",'int',None))
        r.found=(b.idx.e,f"(exists|{j}: int| {trig(E,v,j)} {a.idx.e} <= {j} < {b.idx.e} && ({ex}))")
        yield st,r; return
    pn=E.fresh('p'); st=st.add('let',pn,'spec_fn(int) -> bool',f"|{j}: int| {ex}")
    st=st.add('pf',f"lem_find({pn}, {a.idx.e}, {b.idx.e});",None)
    st,i=E.let(st,f"find_({pn}, {a.idx.e}, {b.idx.e})",'int','ix')
    st=st.add('pf',f"assert({a.idx.e} <= {i} <= {b.idx.e} && ({i} < {b.idx.e} ==> {{ let {j} = {i}; {ex} }}));",None)
    st=st.add('pf',f"assert forall|{j}: int| {trig(E,v,j)} {a.idx.e} <= {j} < {i} implies !({ex}) by {{ assert(!{pn}({j})); }}",None)
    yield st,It(a.cont,S(i,'int',None))
CNTLIB='''pub open spec fn count_(p: spec_fn(int) -> bool, lo: int, hi: int) -> int decreases clip(hi - lo) { if lo >= hi { 0 } else { count_(p, lo, hi - 1) + if p(hi - 1) { 1int } else { 0 } } }
pub proof fn lem_count(p: spec_fn(int) -> bool, lo: int, hi: int) requires lo <= hi
  ensures 0 <= count_(p, lo, hi) <= hi - lo, count_(p, lo, hi) == 0 <==> (forall|j: int| lo <= j < hi ==> !(#[trigger] p(j))) decreases hi - lo
{ if lo < hi { lem_count(p, lo, hi - 1); } }'''
@m('std::count','std::count_if')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs[:2]]
    st=chk_range(E,st,a,b,e); v=E.rd(st,a.cont)
    if isinstance(v,Lst) or E.pure: raise Unsupported('count form')
    def run(x,j):
        el=Ref(a.cont.step('i',j))
        if f.name=='count':
            r=eqv(E,x,E.rd(x,el.place),E.rdref(x,vs[2]),e)
            if r is None: raise Unsupported('count: equality')
            yield x,S(r,'bool')
        else: yield from E.callv(x,E.rdref(x,vs[2]),[el],e)
    st,j,ex=quant(E,st,a.idx.e,b.idx.e,a.cont,run,e)
    E.u.extra['count_']=CNTLIB
    pn=E.fresh('p'); st=st.add('let',pn,'spec_fn(int) -> bool',f"|{j}: int| {ex}")
    st=st.add('pf',f"lem_count({pn}, {a.idx.e}, {b.idx.e});",None)
    st,i=E.let(st,f"count_({pn}, {a.idx.e}, {b.idx.e})",'int','cnt')
    st=st.add('pf',f"assert({i} == 0 ==> forall|{j}: int| {trig(E,v,j)} {a.idx.e} <= {j} < {b.idx.e} ==> !({ex})) by {{ assert forall|{j}: int| {trig(E,v,j)} {i} == 0 && {a.idx.e} <= {j} < {b.idx.e} implies !({ex}) by {{ assert(!{pn}({j})); }} }}",None)
    st=st.add('pf',f"assert({i} > 0 ==> exists|{j}: int| {trig(E,v,j)} {a.idx.e} <= {j} < {b.idx.e} && ({ex})) by {{ if {i} > 0 {{ let {j} = choose|{j}: int| {a.idx.e} <= {j} < {b.idx.e} && #[trigger] {pn}({j}); assert({a.idx.e} <= {j} < {b.idx.e} && ({ex})); }} }}",None)
    yield st,S(i,'int',f.rt,rng=(0,2**62))
@m('std::fill')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs[:2]]
    st=chk_range(E,st,a,b,e); v=E.rd(st,a.cont)
    if isinstance(v,Lst) or a.kind=='rev': raise Unsupported('fill form')
    x=E.rdref(st,vs[2]); et=E.elemty(v.ty)
    if isinstance(x,S) and x.vt=='int': x=E.cast_int(x,et)
    x=E.lower(x,et)
    st,r=E.let(st,f"Seq::new({v.e}.len(), |i: int| if {a.idx.e} <= i < {b.idx.e} {{ {x} }} else {{ {v.e}[i] }})",v.vt)
    yield E.wr(st,a.cont,S(r,v.vt,v.ty)),VOID
@m('std::transform')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs[:2]]; o=E.rdref(st,vs[2])
    if len(vs)!=4 or not isinstance(o,BackIt): raise Unsupported('std::transform form')
    if o.kind!='back': raise Unsupported('std::transform output')
    if isinstance(E.rd(st,a.cont),Lst): raise Unsupported('literal list')
    st=chk_range(E,st,a,b,e)
    w=E.rd(st,o.place)
    if a.cont==o.place: raise Unsupported('std::transform onto its own input')
    if w.ty.k=='rec' and not w.ty.n.startswith('std::'):
        # a container class of the code: its own push_back, once per element
        fn=E.rdref(st,vs[3]); st,ip=E.newcell(st,a,'it')
        def cond(x):
            x,c=E.compare(x,'!=',E.rd(x,ip),b,e); yield x,c
        def body(x):
            x,pl=E.it_deref(x,E.rd(x,ip),e)
            for x1,v in E.callv(x,fn,[Ref(pl)],e):
                if isinstance(v,Thr): yield x1,('thr',v.name); continue
                for x2,v2 in E.call_named(x1,o.place,'push_back',[v],e): yield x2,(('thr',v2.name) if isinstance(v2,Thr) else None)
        def inc(x):
            x,n=E.it_add(x,E.rd(x,ip),E.const(1,None),e); yield E.wr(x,ip,n),None
        for x,oo in E.loop(st,cond,body,inc,e or {}):
            if oo is not None and oo[0]=='thr': yield x,Thr(oo[1])
            else: yield x,o
        return
    et=E.elemty(w.ty)
    def tov(st1,v):
        x=E.rdref(st1,v)
        if hasattr(E,'coerce'): st1,x=E.coerce(st1,v,x,et)
        if isinstance(x,S) and x.vt=='int': x=E.cast_int(x,et)
        return st1,E.lower(x,et)
    j=E.fresh('q'); E.atoms[j]='int'; c=f"{a.idx.e} <= {j} < {b.idx.e}"
    st0=st.copy(); st0.facts=st.facts|{c}
    ex,nodes=purepaths(E,st0,lambda x: E.callv(x,E.rdref(x,vs[3]),[Ref(a.cont.step('i',j))],e),tov)
    if [n for n in nodes if n[0]!='let']: st=st.add('forall',j,c,nodes)
    cnt=b.idx.e if a.idx.c==0 else f"({b.idx.e} - {a.idx.e})"
    k=E.fresh('k'); body=ex if a.idx.c==0 else f"{{ let {j} = {k} + {a.idx.e}; {ex} }}"
    st,r=E.let(st,f"({w.e} + Seq::new({cnt} as nat, |{j if a.idx.c==0 else k}: int| {body}))",w.vt)
    yield E.wr(st,o.place,S(r,w.vt,w.ty)),o
FILTER='''pub open spec fn keep_<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T> decreases s.len() { if s.len() == 0 { s } else if p(s.last()) { keep_(s.drop_last(), p).push(s.last()) } else { keep_(s.drop_last(), p) } }
pub proof fn keep_len<T>(s: Seq<T>, p: spec_fn(T) -> bool) ensures keep_(s, p).len() <= s.len() decreases s.len() { if s.len() > 0 { keep_len(s.drop_last(), p); } }
pub proof fn keep_same<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool) requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i]) ensures keep_(s, p) == keep_(s, q) decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i]) == q(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } assert(p(s[s.len() - 1]) == q(s[s.len() - 1])); keep_same(s.drop_last(), p, q); } }'''
@m('std::remove_if')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs[:2]]; v=E.rd(st,a.cont); n=E.seqlen(st,a.cont)
    if a.cont!=b.cont or a.idx.c!=0 or b.idx.e!=n: raise Unsupported('remove_if on part of a container')
    et=E.elemty(v.ty); svt=v.vt[4:-1]
    x=E.fresh('x'); E.u.extra['keep_']=FILTER
    def run(y):
        y,pl=E.newcell(y,E.lift(x,et)); yield from E.callv(y,E.rdref(y,vs[2]),[Ref(pl)],e)
    ex,nodes=purepaths(E,st,run)
    if [m_ for m_ in nodes if m_[0]!='let']: raise Unsupported('remove_if predicate with obligations')
    pn=E.fresh('p'); st=st.add('let',pn,f"spec_fn({svt}) -> bool",f"|{x}: {svt}| !({ex})")
    st,k=E.let(st,f"keep_({v.e}, {pn})",v.vt)
    st=st.add('pf',f"keep_len({v.e}, {pn});",None)
    tail=E.fresh('tail')
    # the elements behind the new end are unspecified (moved from)
    st,r=E.let(st,f"({k} + Seq::new(({v.e}.len() - {k}.len()) as nat, |i: int| uninit::<{svt}>()))",v.vt)
    st=st.add('pf',f"assert({r}.take({k}.len() as int) =~= {k} && {r}.len() == {v.e}.len() && {r}.skip({r}.len() as int) =~= Seq::empty());",None)
    st=E.wr(st,a.cont,S(r,v.vt,v.ty))
    yield st,It(a.cont,S(f"({k}.len() as int)",'int',None))
@m('std::accumulate')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs[:2]]
    if not isinstance(a,It) or isinstance(E.rd(st,a.cont),Lst): raise Unsupported('accumulate form')
    st=chk_range(E,st,a,b,e)
    x0=E.rdref(st,vs[2]); st,ac=E.newcell(st,x0,'acc'); st,ip=E.newcell(st,a,'it')
    fn=E.rdref(st,vs[3]) if len(vs)==4 else None
    if fn is None: raise Unsupported('accumulate without a function')
    def cond(x):
        x,c=E.compare(x,'!=',E.rd(x,ip),b,e); yield x,c
    def body(x):
        x,pl=E.it_deref(x,E.rd(x,ip),e)
        for x1,v in E.callv(x,fn,[E.rd(x,ac),Ref(pl)],e):
            if isinstance(v,Thr): yield x1,('thr',v.name); continue
            yield E.wr(x1,ac,E.rdref(x1,v)),None
    def inc(x):
        x,n=E.it_add(x,E.rd(x,ip),E.const(1,None),e); yield E.wr(x,ip,n),None
    for x,oo in E.loop(st,cond,body,inc,e or {}):
        if oo is not None and oo[0]=='thr': yield x,Thr(oo[1])
        else: yield x,E.rd(x,ac)
@m('std::for_each')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs[:2]]; st=chk_range(E,st,a,b,e,rev=True)
    fn=E.rdref(st,vs[2])
    st,fp=E.newcell(st,fn,'fe'); st,ip=E.newcell(st,a,'it')
    def cond(x):
        x,c=E.compare(x,'!=',E.rd(x,ip),b,e); yield x,c
    def body(x):
        x,pl=E.it_deref(x,E.rd(x,ip),e)
        c=E.rd(x,fp)
        if isinstance(c,(Clo,FnP)): g=E.callv(x,c,[Ref(pl)],e)
        else: g=E.call_op(x,fp,[Ref(pl)],e)
        for x1,v in g: yield x1,(('thr',v.name) if isinstance(v,Thr) else None)
    def inc(x):
        x,n=E.it_add(x,E.rd(x,ip),E.const(1,None),e); yield E.wr(x,ip,n),None
    for x,o in E.loop(st,cond,body,inc,e or {}):
        if o is not None and o[0]=='thr': yield x,Thr(o[1])
        else: yield x,E.rd(x,fp)
@m('std::all_of','std::any_of','std::none_of')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs[:2]]
    v=E.rd(st,a.cont)
    if isinstance(v,Lst):
        # unrolled over the literal elements, left to right
        def go(st,i):
            if i==b.idx.c: yield st,S('false' if f.name=='any_of' else 'true','bool'); return
            for st1,r in E.callv(st,E.rdref(st,vs[2]),[Ref(a.cont.step('i',str(i)))],e):
                if isinstance(r,Thr): yield st1,r; continue
                r=E.tobool(E.rdref(st1,r))
                stop=lambda x: iter([(x,S('true' if f.name=='any_of' else 'false','bool'))])
                more=lambda x: go(x,i+1)
                yield from (E.merge(st1,r.e,more,stop) if f.name=='all_of' else E.merge(st1,r.e,stop,more))
        if a.idx.c is None or b.idx.c is None: raise Unsupported('literal list range')
        yield from go(st,a.idx.c); return
    st=chk_range(E,st,a,b,e)
    st,j,ex=quant(E,st,a.idx.e,b.idx.e,a.cont,lambda x,j: E.callv(x,E.rdref(x,vs[2]),[Ref(a.cont.step('i',j))],e),e)
    if f.name!='all_of': ex=neg(ex)
    r=f"(forall|{j}: int| {trig(E,v,j)} {a.idx.e} <= {j} < {b.idx.e} ==> ({ex}))"
    if f.name=='any_of': r=neg(r)
    st,r=E.let(st,r,'bool','all'); yield st,S(r,'bool',f.rt)
@m('std::equal')
def _(E,st,f,t,obj,vs,e):
    args=[E.rdref(st,x) for x in vs]
    its=[]
    while args and isinstance(args[0],It) and len(its)<4: its.append(args.pop(0))
    a,b,c=its[:3]; st=chk_range(E,st,a,b,e); v=E.rd(st,a.cont); w=E.rd(st,c.cont)
    if c.kind=='rev' or isinstance(v,Lst) or isinstance(w,Lst): raise Unsupported('std::equal form')
    m_=E.seqlen(st,c.cont)
    off=c.idx.e if a.idx.c==0 else f"({c.idx.e} - {a.idx.e})"
    pos=lambda j: j if off=='0' else f"({j} + {off})"
    lenok=None
    if len(its)==4:
        st=chk_range(E,st,c,its[3],e); lenok=f"({b.idx.e} - {a.idx.e} == {its[3].idx.e} - {c.idx.e})"
    elif a.idx.c==0 and c.idx.c==0: st=E.ob(st,f"{b.idx.e} <= {m_} + {0 if c.kind!='cstr' else 1}","std::equal reads past the second range",e)
    else: st=E.ob(st,f"{c.idx.e} + ({b.idx.e} - {a.idx.e}) <= {m_}","std::equal reads past the second range",e)
    def run(x,j):
        if lenok: x=x.fact(lenok)
        p=Ref(a.cont.step('i',j)); q=Ref(c.cont.step('i',pos(j)))
        if args: yield from E.callv(x,args[0],[p,q],e)
        else: yield from E.elemeq(x,p,q,e)
    j=E.fresh('q'); E.atoms[j]='int'; cc=f"{a.idx.e} <= {j} < {b.idx.e}"
    st0=st.copy(); st0.facts=st.facts|{cc}
    ex,nodes=purepaths(E,st0,lambda x: run(x,j))
    if [n for n in nodes if n[0]!='let']: st=st.add('forall',j,conj(cc,lenok) if lenok else cc,nodes)
    r=f"(forall|{j}: int| {trig(E,v,j)} {cc} ==> ({ex}))"
    if lenok: r=conj(lenok,r)
    st,r=E.let(st,r,'bool','eq'); yield st,S(r,'bool',f.rt)
# ---------------------------------------------------------------- C strings
SCMP='''pub open spec fn cz(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 || s[0] == 0 { Seq::empty() } else { seq![s[0]] + cz(s.skip(1)) } }
pub open spec fn scmp(a: Seq<u8>, b: Seq<u8>) -> int decreases a.len() { if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } } else if b.len() == 0 { 1 } else if a[0] < b[0] { -1 } else if a[0] > b[0] { 1 } else { scmp(a.skip(1), b.skip(1)) } }
pub proof fn cz_id(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> s[i] != 0 ensures cz(s) =~= s decreases s.len() { if s.len() > 0 { assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] != 0 by { assert(s.skip(1)[i] == s[i + 1]); } cz_id(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); } }
pub proof fn cz_len(s: Seq<u8>) ensures cz(s).len() <= s.len(), forall|i: int| 0 <= i < cz(s).len() ==> #[trigger] cz(s)[i] == s[i] && s[i] != 0, cz(s).len() < s.len() ==> s[cz(s).len() as int] == 0 decreases s.len()
{ if s.len() > 0 && s[0] != 0 { cz_len(s.skip(1)); let c = cz(s); let d = cz(s.skip(1)); assert(c == seq![s[0]] + d);
 assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]) == s[i] && s[i] != 0 by { if i > 0 { assert(c[i] == d[i - 1]); assert(d[i - 1] == s.skip(1)[i - 1]); } else { assert(c[0] == s[0]); } }
 if c.len() < s.len() { assert(s.skip(1)[d.len() as int] == s[c.len() as int]); } } else { assert(cz(s).len() == 0); } }
pub proof fn scmp_eq(a: Seq<u8>, b: Seq<u8>) ensures (scmp(a, b) == 0) == (a =~= b) decreases a.len()
{ if a.len() > 0 && b.len() > 0 && a[0] == b[0] { scmp_eq(a.skip(1), b.skip(1)); if a.skip(1) =~= b.skip(1) { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); } } assert(a.len() == b.len()); assert(a =~= b); } } }
pub proof fn scmp_anti(a: Seq<u8>, b: Seq<u8>) ensures scmp(a, b) == -scmp(b, a) decreases a.len() { if a.len() > 0 && b.len() > 0 && a[0] == b[0] { scmp_anti(a.skip(1), b.skip(1)); } }
'''
def cstr_of(E,st,v,e):
    """(st, text of the zero-terminated content, python bytes or None)"""
    if isinstance(v,Ptr):
        st,pl=E.deref(st,v,e); raise Unsupported('pointer as C string')
    if not isinstance(v,It): raise Unsupported('C string argument')
    c=E.rd(st,v.cont); E.u.extra['scmp']=SCMP
    if isinstance(c,S) and isinstance(c.c,bytes) and v.idx.c is not None:
        z=c.c[v.idx.c:].split(b'\0')[0]
        return st,'seq!['+', '.join(f"{x}u8" for x in z)+']' if z else 'Seq::<u8>::empty()',z
    if v.kind!='cstr': raise Unsupported('unterminated character array as C string')
    x=c.e if v.idx.c==0 else f"{paren_(c.e)}.skip({v.idx.e})"
    if v.idx.c!=0: st=E.ob(st,f"0 <= {v.idx.e} <= {E.seqlen(st,v.cont)}","C string pointer out of range",e)
    return st,f"cz({x})",None
@m('strcmp','std::strcmp')
def _(E,st,f,t,obj,vs,e):
    st,a,ca=cstr_of(E,st,E.rdref(st,vs[0]),e); st,b,cb=cstr_of(E,st,E.rdref(st,vs[1]),e)
    if ca is not None and cb is not None:
        yield st,E.const((ca>cb)-(ca<cb),f.rt); return
    st=st.add('pf',f"scmp_eq({a}, {b}); scmp_anti({a}, {b});",None)
    st,r=E.let(st,f"scmp({a}, {b})",'int','cmp'); x=S(r,'int',f.rt,rng=(-1,1)); yield st,x
@m('strlen','std::strlen')
def _(E,st,f,t,obj,vs,e):
    st,a,ca=cstr_of(E,st,E.rdref(st,vs[0]),e)
    if ca is not None: yield st,E.const(len(ca),f.rt); return
    if a.startswith('cz('): st=st.add('pf',f"cz_len{a[2:]};",None)
    st,r=E.let(st,f"({a}.len() as int)",'int','len'); yield st,S(r,'int',f.rt,rng=(0,2**62))
@m('std::binary_search')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs[:2]]
    v=E.rd(st,a.cont)
    if not isinstance(v,Lst) or a.idx.c is None or b.idx.c is None: raise Unsupported('binary_search over a symbolic range')
    if len(vs)<4: raise Unsupported('binary_search without comparator')
    els=[Ref(a.cont.step('i',str(i))) for i in range(a.idx.c,b.idx.c)]
    def cmp(x,y):
        def run(s0): return E.callv(s0,E.rdref(s0,vs[3]),[x,y],e)
        ex,nodes=purepaths(E,st,run)
        return ex,[n for n in nodes]
    # the elements must be strictly sorted (checked by evaluating the comparator on the literals)
    for x,y in zip(els,els[1:]):
        ex,_=cmp(x,y)
        st=E.ob(st,ex,"binary_search over an unsorted list",e)
    r='false'
    for x in els:
        p,n1=cmp(x,vs[2]); q,n2=cmp(vs[2],x)
        for n in n1+n2:
            if n[0]=='pf': st=st.add(*n)
        r=disj(r,conj(neg(p),neg(q)))
    E.u.assumptions.add('std::binary_search over a strictly sorted list finds exactly the equivalent elements (its comparator is a strict weak order)')
    st,r=E.let(st,r,'bool','bs'); yield st,S(r,'bool',f.rt)

@m('std::type_info::operator==','std::type_info::operator!=')
def _(E,st,f,t,obj,vs,e):
    a=E.rdref(st,obj); b=E.rdref(st,vs[0])
    c='true' if a.e==b.e else 'false'
    if f.op=='!=': c='false' if c=='true' else 'true'
    yield st,S(c,'bool',f.rt)

# ---------------------------------------------------------------- ordered maps
# A map is the sequence of its entries; keys are distinct (an invariant callers state), lookups find the first entry of a
# key, and a new entry goes to some position that depends on the contents and the key only (the order itself is not modelled).
MAPLIB='''pub open spec fn map_idx_<K, V>(s: Seq<(K, V)>, k: K) -> int decreases s.len() { if s.len() == 0 { 0 } else { let r = map_idx_(s.drop_last(), k); if r < s.len() - 1 { r } else if s.last().0 == k { s.len() - 1 } else { s.len() as int } } }
pub uninterp spec fn map_slot_<K, V>(s: Seq<(K, V)>, k: K) -> int;
pub open spec fn map_pos_<K, V>(s: Seq<(K, V)>, k: K) -> int { let p = map_slot_(s, k); if 0 <= p <= s.len() { p } else { 0 } }
#[verifier::opaque] pub open spec fn map_emp_<K, V>(s: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)> { if map_idx_(s, k) < s.len() { s } else { map_ins_(s, k, v) } }
pub open spec fn map_ins_<K, V>(s: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)> { s.insert(map_pos_(s, k), (k, v)) }
pub proof fn lem_map_idx<K, V>(s: Seq<(K, V)>, k: K) ensures 0 <= map_idx_(s, k) <= s.len(), map_idx_(s, k) < s.len() ==> s[map_idx_(s, k)].0 == k, forall|j: int| 0 <= j < map_idx_(s, k) ==> (#[trigger] s[j]).0 != k decreases s.len()
{ if s.len() > 0 { lem_map_idx(s.drop_last(), k); let r = map_idx_(s.drop_last(), k); if r < s.len() - 1 { assert(s.drop_last()[r] == s[r]); } assert forall|j: int| 0 <= j < map_idx_(s, k) implies (#[trigger] s[j]).0 != k by { if j < s.len() - 1 { assert(s.drop_last()[j] == s[j]); } } } }'''
RT=('std::_Rb_tree_iterator::','std::_Rb_tree_const_iterator::')
for _o in ('operator*','operator->','operator++','operator--'):
    for _r in RT: M[_r+_o]=M[N+_o]
def map_iter_ctor(E,st,f,t,obj,vs,e): yield st,(E.rdref(st,vs[0]) if vs else UNINIT)
for _r in RT: M[_r+_r.split('::')[1]]=map_iter_ctor; M[_r+'operator=']=M[N+'operator=']
for _o in ('size','empty','begin','cbegin','end','cend','clear','swap'): M['std::map::'+_o]=M['std::vector::'+_o]
def mapkey(E,st,v,kt,e):
    x=E.rdref(st,v)
    if kt.k=='rec' and E.vt(kt)=='Seq<u8>': return strval(E,st,v,e)
    if isinstance(x,S) and x.vt=='int': return st,E.lower(E.cast_int(x,kt),kt)
    return st,E.lower(x,kt)
def map_find(E,st,obj,v,e,lem=True):
    m_=cur(E,st,obj); E.u.extra['map_idx_']=MAPLIB
    kt=E.elemty(m_.ty).args[0]
    st,k=mapkey(E,st,v,kt,e)
    st,i=E.let(st,f"map_idx_({m_.e}, {k})",'int','mi')
    if lem: st=st.add("pf",f"lem_map_idx({m_.e}, {k});",None)
    return st,m_,k,i
@m('std::map::find','std::map::count')
def _(E,st,f,t,obj,vs,e):
    st,m_,k,i=map_find(E,st,obj,vs[0],e)
    if f.name=='count': yield st,S(f"(if {i} < {m_.e}.len() {{ 1int }} else {{ 0int }})",'int',f.rt); return
    yield st,It(obj.place,S(i,'int',None))
def map_put(E,st,obj,m_,k,v):
    st,p=E.let(st,f"map_pos_({m_.e}, {k})",'int','mp')
    st,r=E.let(st,f"map_ins_({m_.e}, {k}, {v})",m_.vt)
    return E.wr(st,obj.place,S(r,m_.vt,m_.ty)),p
@m('std::map::operator[]','std::map::at')
def _(E,st,f,t,obj,vs,e):
    st,m_,k,i=map_find(E,st,obj,vs[0],e)
    vt=E.elemty(m_.ty).args[1]
    for st1,b in E.branch(st,f"({i} < {m_.e}.len())"):
        if b: yield st1,Ref(obj.place.step('i',i).step('f','second'))
        elif f.name=='at': yield st1,Thr('std::out_of_range')
        else:
            st1,p=map_put(E,st1,obj,m_,k,E.lower(E.zero(vt),vt))
            yield st1,Ref(obj.place.step('i',p).step('f','second'))
@m('std::map::emplace','std::map::insert')
def _(E,st,f,t,obj,vs,e):
    m_=cur(E,st,obj); pt=E.elemty(m_.ty); kt,vt=pt.args
    if len(vs)==2: kv,vv=vs
    elif len(vs)==1:
        o=vs[0]
        if not isinstance(o,Ref): st,pl=E.newcell(st,o,'kv'); o=Ref(pl)
        kv=Ref(o.place.step('f','first')); vv=Ref(o.place.step('f','second'))
    else: raise Unsupported('map insertion form')
    st,m_,k,i=map_find(E,st,obj,kv,e,False)
    if vt.k=='rec' and stdq(vt.n)=='std::unique_ptr': st,x=E.coerce(st,vv,E.rdref(st,vv),vt)
    else: st,x=conv(E,st,vv,vt,e)
    x=E.lower(x,vt)
    # one expression, no fork: an existing key keeps its entry (a rejected argument is consumed by the node all the same)
    st,r=E.let(st,f"map_emp_({m_.e}, {k}, {x})",m_.vt)
    st,p=E.let(st,f"(if {i} < {m_.e}.len() {{ {i} }} else {{ map_pos_({m_.e}, {k}) }})",'int')
    st,ins=E.let(st,f"!({i} < {m_.e}.len())",'bool')
    st=E.wr(st,obj.place,S(r,m_.vt,m_.ty))
    if isinstance(vv,Ref) and vt.k=='rec': st=moved(E,st,vv,vt)
    yield st,Obj(f.rt,{'first':It(obj.place,S(p,'int',None)),'second':S(ins,'bool',None)})
@m('std::map::erase')
def _(E,st,f,t,obj,vs,e):
    if isinstance(E.rdref(st,vs[0]),It): yield from M['std::vector::erase'](E,st,f,t,obj,vs,e); return
    st,m_,k,i=map_find(E,st,obj,vs[0],e)
    for st1,b in E.branch(st,f"({i} < {m_.e}.len())"):
        if b:
            st1,r=E.let(st1,f"{m_.e}.remove({i})",m_.vt)
            yield E.wr(st1,obj.place,S(r,m_.vt,m_.ty)),E.const(1,f.rt)
        else: yield st1,E.const(0,f.rt)
M['std::map::map']=seq_ctor
M['std::map::operator=']=M['std::vector::operator=']
