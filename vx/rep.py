"""Reports: std::cerr as an explicit text that functions take and return, decimal output of integers, std::endl,
std::ostream_iterator<std::string> with a delimiter, std::strtoll, comparison of element owners by identity, std::function made of a predicate class."""
from .core import *
from .prog import *
from .engine import *
from . import stl, poly, logm
ASSUME=['std::cerr and std::stringstream append the bytes written: failing streams and formatting state are not modelled; integers are written in decimal (C locale)',
 'std::strtoll is modelled by its definition in the C standard (optional white space and sign, decimal digits, saturating); distinct owners never own the same element (std::unique_ptr)',
 'a std::function made of query::Element calls its call operator, which is proved to compare the name of the element']
DEC='''
pub open spec fn decn(n: int) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { decn(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn dec10(n: int) -> Seq<u8> { if n < 0 { seq![45u8] + decn(-n) } else { decn(n) } }
pub open spec fn isws(c: u8) -> bool { c == 32 || 9 <= c <= 13 }
pub open spec fn skipws(s: Seq<u8>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && isws(s[i]) { skipws(s, i + 1) } else { i } }
pub open spec fn digs(s: Seq<u8>, i: int, a: int) -> int decreases s.len() - i { if 0 <= i < s.len() && 48 <= s[i] <= 57 { digs(s, i + 1, a * 10 + (s[i] - 48)) } else { a } }
pub open spec fn stoll_(s: Seq<u8>) -> int { let i = skipws(s, 0); let neg = i < s.len() && s[i] == 45; let j = if i < s.len() && (s[i] == 45 || s[i] == 43) { i + 1 } else { i };
  let v = if neg { -digs(s, j, 0) } else { digs(s, j, 0) }; if v < -0x8000_0000_0000_0000 { -0x8000_0000_0000_0000 } else if v > 0x7fff_ffff_ffff_ffff { 0x7fff_ffff_ffff_ffff } else { v } }
'''
class OsIt(BackIt): pass
def sty():
    t=Ty(); t.k='rec'; t.n='std::basic_ostream'; t.args=[]; t.key=None; t.rec=None; t.tu=None; t._vt='Seq<u8>'; t.s='ostream'; t.c=False; return t
def unit(u):
    poly.unit(u); poly.elemptr(u); logm.unit(u)
    u.extra['dec10']=DEC; u.extra['scmp']=stl.SCMP
    u.ghosts={'err':('g:cerr','Seq<u8>',sty())}
    u.globals={'std::cerr':('cell','g:cerr'),'snowcrash::SourceAnnotation::OK':('const','sa_ok()')}
_out=stl.M['std::basic_ostream::operator<<']
@stl.m('std::operator<<','std::basic_ostream::operator<<')
def _(E,st,f,t,obj,vs,e):
    o=obj if obj is not None else vs[0]; a=vs if obj is not None else vs[1:]
    x=E.rdref(st,a[0]); pt=f.pt[-1]
    if isinstance(x,FnP) and stdq(x.fn.q)=='std::endl': yield stl.stream_out(E,st,o,'seq![10u8]'),o; return
    if isinstance(x,FnP) and stdq(x.fn.q)=='std::flush': yield st,o; return
    if isinstance(x,S) and x.vt=='int' and pt.k=='int' and pt.bits>8: yield stl.stream_out(E,st,o,f"dec10({x.e})"),o; return
    yield from _out(E,st,f,t,obj,vs,e)
@stl.m('std::endl')
def _(E,st,f,t,obj,vs,e): yield stl.stream_out(E,st,vs[0],'seq![10u8]'),vs[0]
@stl.m('std::ostream_iterator::ostream_iterator')
def _(E,st,f,t,obj,vs,e):
    x=E.rdref(st,vs[0])
    if isinstance(x,BackIt): yield st,x; return
    r=OsIt(vs[0].place); r.delim=None
    if len(vs)==2: st,r.delim=stl.strval(E,st,vs[1],e)
    yield st,r
_tr=stl.M['std::transform']
@stl.m('std::transform')
def _(E,st,f,t,obj,vs,e):
    a,b=[E.rdref(st,x) for x in vs[:2]]; o=E.rdref(st,vs[2])
    if not isinstance(o,OsIt): yield from _tr(E,st,f,t,obj,vs,e); return
    st=stl.chk_range(E,st,a,b,e)
    fn=E.rdref(st,vs[3]); st,fp=E.newcell(st,fn,'fn'); st,ip=E.newcell(st,a,'it')
    def cond(x):
        x,c=E.compare(x,'!=',E.rd(x,ip),b,e); yield x,c
    def body(x):
        x,pl=E.it_deref(x,E.rd(x,ip),e)
        c=E.rd(x,fp); y=E.rd(x,pl)
        ar=Ptr(pl) if isinstance(y,S) and y.vt=='El' else Ref(pl)   # stored pointers to elements are never null
        for x1,v in (E.callv(x,c,[ar],e) if isinstance(c,(Clo,FnP)) else E.call_op(x,fp,[ar],e)):
            if isinstance(v,Thr): yield x1,('thr',v.name); continue
            x1,s=stl.strval(E,x1,v,e); x1=stl.stream_out(E,x1,Ref(o.place),s)
            if o.delim is not None: x1=stl.stream_out(E,x1,Ref(o.place),o.delim)
            yield x1,None
    def inc(x):
        x,n=E.it_add(x,E.rd(x,ip),E.const(1,None),e); yield E.wr(x,ip,n),None
    for x,oo in E.loop(st,cond,body,inc,e or {}):
        if oo is not None and oo[0]=='thr': yield x,Thr(oo[1])
        else: yield x,o
@stl.m('std::strtoll','strtoll')
def _(E,st,f,t,obj,vs,e):
    p=E.rdref(st,vs[0]); st,s,_=stl.cstr_of(E,st,p,e); b=stl.intv(E,st,vs[2])
    if b.c!=10: raise Unsupported('strtoll base')
    q=E.rdref(st,vs[1])
    if not isinstance(q,Ptr): raise Unsupported('strtoll end')
    if q.place is not None:
        if p.idx.c!=0: raise Unsupported('strtoll from the middle')
        n=E.fresh('end'); E.atoms[n]='int'
        st=st.add('havoc',n,'int',f"0 <= {n} <= {s}.len()") if False else st
        st,x=E.let(st,f"strend({s})",'int','end')
        st=st.add('pf',f"strend_ax({s});",None)
        st=E.wr(st,q.place,It(p.cont,S(x,'int',None),'cstr'))
    st,r=E.let(st,f"stoll_({s})",'int','ll')
    yield st,S(r,'int',f.rt,rng=(-2**63,2**63-1))
DEC+='''
// where strtoll stops reading: somewhere in the text
pub uninterp spec fn strend(s: Seq<u8>) -> int;
#[verifier::external_body] pub proof fn strend_ax(s: Seq<u8>) ensures 0 <= strend(s) <= s.len() {}
'''
_eq=stl.M['std::operator==']
@stl.m('std::operator==','std::operator!=')
def _(E,st,f,t,obj,vs,e):
    if len(vs)==2 and all(isinstance(v,Ref) for v in vs):
        a,b=[E.rd(st,v.place) for v in vs]
        if all(isinstance(x,S) and x.vt.startswith('Option<Box<') for x in(a,b)):
            p,q=vs[0].place,vs[1].place
            if p==q: same='true'
            elif p.cid==q.cid and p.path[:-1]==q.path[:-1] and p.path[-1][0]==q.path[-1][0]=='i': same=f"({p.path[-1][1].e if hasattr(p.path[-1][1],'e') else p.path[-1][1]} == {q.path[-1][1].e if hasattr(q.path[-1][1],'e') else q.path[-1][1]})"
            else: raise Unsupported('comparison of owners')
            r=f"({same} || ({a.e} is None && {b.e} is None))"
            yield st,S(r if f.op=='==' else neg(r),'bool',f.rt); return
    yield from _eq(E,st,f,t,obj,vs,e)
@stl.m('std::function::function')
def _(E,st,f,t,obj,vs,e):
    if not vs: raise Unsupported('empty std::function')
    x=E.rdref(st,vs[0])
    if isinstance(x,S) and x.vt=='int': yield st,x; return
    ty=f.pt[0].to if f.pt[0].k=='ref' else f.pt[0]
    if ty.k!='rec' or ty.key!='refract::query::Element': raise Unsupported('std::function of another callable')
    v=E.lower(x,ty)
    st,n=E.let(st,f"{paren(v)}.name",'Seq<u8>','name'); st=st.add('pf',f"ax_named({n});",None)
    yield st,S(f"fn_named({n})",'int',t)
