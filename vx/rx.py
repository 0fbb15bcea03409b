"""POSIX regular expressions (<regex.h>): regcomp/regexec/regfree over uninterpreted matching functions, with the number of
compiled, not yet released expressions as ghost state (it must be zero wherever the function ends)."""
from .core import *
from .engine import *
from . import stl
LIB='''
// POSIX regcomp: 0 iff the expression compiles; regexec: 0 iff it matches; byte offsets of the i-th group, -1 when it did not take part
#[verifier::ext_equal] pub struct RX { pub live: bool, pub pat: Seq<u8>, pub fl: int, pub nosub: bool }
pub uninterp spec fn rx_comp(pat: Seq<u8>, fl: int) -> i32;
pub uninterp spec fn rx_exec(pat: Seq<u8>, fl: int, subj: Seq<u8>, ef: int) -> i32;
pub uninterp spec fn rx_so(pat: Seq<u8>, fl: int, subj: Seq<u8>, ef: int, i: int) -> i32;
pub uninterp spec fn rx_eo(pat: Seq<u8>, fl: int, subj: Seq<u8>, ef: int, i: int) -> i32;
pub open spec fn rx_off(pat: Seq<u8>, fl: int, subj: Seq<u8>, ef: int) -> bool {
  forall|i: int| #![trigger rx_so(pat, fl, subj, ef, i)] #![trigger rx_eo(pat, fl, subj, ef, i)] 0 <= i ==> (rx_so(pat, fl, subj, ef, i) == -1 && rx_eo(pat, fl, subj, ef, i) == -1) || 0 <= rx_so(pat, fl, subj, ef, i) <= rx_eo(pat, fl, subj, ef, i) <= subj.len() }
#[verifier::external_body] pub proof fn rx_ax(pat: Seq<u8>, fl: int, subj: Seq<u8>, ef: int) ensures rx_exec(pat, fl, subj, ef) == 0 ==> rx_off(pat, fl, subj, ef) {}
'''
ASSUME=['POSIX regcomp, regexec and regfree are modelled: compiling and matching are uninterpreted functions of pattern, flags and subject (both end at the first zero byte); on a match every group has offsets inside the subject or -1/-1; nothing but regcomp acquires memory that regfree must release; allocation failure is not modelled']
def unit(u):
    u.special['RX']=lambda u,t: 'RX' if stdq(t.n)=='re_pattern_buffer' else None
    def entry(E,st,f,sg):
        st,E.rxlive=E.newcell(st,E.const(0,None),'rxlive'); return st
    def leave(E,st,f):
        n=E.rd(st,E.rxlive)
        return E.ob(st,f"{n.e} == 0","a compiled regular expression is not released on a path that leaves the function")
    u.entry_hook=entry; u.exit_hook=leave
def rxof(E,st,v,e):
    v=E.rdref(st,v)
    st,pl=E.deref(st,v,e)
    return st,pl
def cs(E,st,v,e):
    st,a,_=stl.cstr_of(E,st,E.rdref(st,v),e)
    return E.let(st,a,'Seq<u8>','cs')
@stl.m('regcomp')
def _(E,st,f,t,obj,vs,e):
    st,pl=rxof(E,st,vs[0],e); st,p=cs(E,st,vs[1],e); fl=stl.intv(E,st,vs[2])
    if fl.c is None: raise Unsupported('regcomp with flags that are not constant')
    old=E.rd(st,pl)
    if isinstance(old,S) and old.vt=='RX': st=E.ob(st,f"!{paren(old.e)}.live","regcomp overwrites a compiled expression that was not released",e)
    k=fl.c&~8
    st,r=E.let(st,f"rx_comp({p}, {k}int) as int",'int','rc')
    st,x=E.let(st,f"RX {{ live: {r} == 0, pat: {p}, fl: {k}, nosub: {'true' if fl.c&8 else 'false'} }}",'RX')
    st=E.wr(st,pl,S(x,'RX',f.pt[0].to))
    n=E.rd(st,E.rxlive); st,m=E.let(st,f"{n.e} + (if {r} == 0 {{ 1int }} else {{ 0int }})",'int','live'); st=E.wr(st,E.rxlive,S(m,'int',None))
    yield st,S(r,'int',f.rt,rng=(-2**31,2**31-1))
def live(E,st,pl,e,what):
    x=E.rd(st,pl)
    if not(isinstance(x,S) and x.vt=='RX'): raise Unsupported(f"{what} of an expression that was not compiled here")
    return E.ob(st,f"{paren(x.e)}.live",f"{what} of an expression that is not compiled",e),x
@stl.m('regexec')
def _(E,st,f,t,obj,vs,e):
    st,pl=rxof(E,st,vs[0],e); st,x=live(E,st,pl,e,'regexec'); st,p=cs(E,st,vs[1],e)
    n=stl.intv(E,st,vs[2]); g=E.rdref(st,vs[3]); ef=stl.intv(E,st,vs[4])
    if ef.c is None or ef.c&4: raise Unsupported('regexec flags')
    st,r=E.let(st,f"rx_exec({x.e}.pat, {x.e}.fl, {p}, {ef.c}int) as int",'int','rx')
    st=st.add('pf',f"rx_ax({x.e}.pat, {x.e}.fl, {p}, {ef.c}int);",None)
    if isinstance(g,Ptr) and g.place is None or isinstance(g,S) and g.c==0:
        st=E.ob(st,f"{x.e}.nosub || {n.e} == 0","regexec stores groups through a null pointer",e)
    elif isinstance(g,It):
        c=E.rd(st,g.cont); l=E.seqlen(st,g.cont)
        st=E.ob(st,f"{x.e}.nosub || 0 <= {n.e} <= {l} - {g.idx.e}","regexec stores groups past the end of the array",e)
        st,s=E.let(st,f"Seq::new({c.e}.len(), |i: int| if !{x.e}.nosub && {g.idx.e} <= i < {g.idx.e} + {n.e} {{ if {r} == 0 {{ S_regmatch_t {{ rm_so: rx_so({x.e}.pat, {x.e}.fl, {p}, {ef.c}int, i - {g.idx.e}), rm_eo: rx_eo({x.e}.pat, {x.e}.fl, {p}, {ef.c}int, i - {g.idx.e}) }} }} else {{ uninit::<S_regmatch_t>() }} }} else {{ {c.e}[i] }})",c.vt)
        st=E.wr(st,g.cont,S(s,c.vt,c.ty))
    else: raise Unsupported('regexec groups')
    yield st,S(r,'int',f.rt,rng=(-2**31,2**31-1))
@stl.m('regfree')
def _(E,st,f,t,obj,vs,e):
    st,pl=rxof(E,st,vs[0],e); st,x=live(E,st,pl,e,'regfree')
    st,y=E.let(st,f"RX {{ live: false, ..{x.e} }}",'RX'); st=E.wr(st,pl,S(y,'RX',x.ty))
    n=E.rd(st,E.rxlive); st,m=E.let(st,f"{n.e} - 1",'int','live'); st=E.wr(st,E.rxlive,S(m,'int',None))
    yield st,VOID
@stl.m('regerror')
def _(E,st,f,t,obj,vs,e): yield st,E.arbitrary(st,f.rt) if False else S('0','int',f.rt)
@stl.m('re_pattern_buffer::re_pattern_buffer')
def _(E,st,f,t,obj,vs,e): yield st,UNINIT
