"""Printing of translated functions as Verus text."""
import re
from .core import *
from .prog import *
from .engine import *

PRELUDE='''
use vstd::prelude::*;
use vstd::seq::*;
use vstd::seq_lib::*;
verus! {
// ---- machine semantics used by the translation (fixed)
pub open spec fn sc(b: int) -> int { if b < 128 { b } else { b - 256 } }
pub open spec fn uc(c: int) -> int { if c < 0 { c + 256 } else { c } }
pub open spec fn wadd(a: int, b: int, m: int) -> int { if a + b >= m { a + b - m } else { a + b } }
pub open spec fn wsub(a: int, b: int, m: int) -> int { if a < b { a - b + m } else { a - b } }
pub open spec fn swrap32(a: int) -> int { let x = a % 4294967296; if x >= 2147483648 { x - 4294967296 } else { x } }
pub open spec fn swrap64(a: int) -> int { let x = a % 18446744073709551616; if x >= 9223372036854775808 { x - 18446744073709551616 } else { x } }
pub open spec fn swrap16(a: int) -> int { let x = a % 65536; if x >= 32768 { x - 65536 } else { x } }
pub open spec fn abs_(a: int) -> int { if a < 0 { -a } else { a } }
pub open spec fn clip(a: int) -> int { if a < 0 { 0 } else { a } }
pub open spec fn tdiv(a: int, b: int) -> int { if (a < 0) == (b < 0) { abs_(a) / abs_(b) } else { -(abs_(a) / abs_(b)) } }
pub open spec fn tmod(a: int, b: int) -> int { a - tdiv(a, b) * b }
pub open spec fn cat(s: Seq<u8>, i: int) -> int { if 0 <= i < s.len() { s[i] as int } else { 0 } }
pub open spec fn mkbox<T>(x: T) -> Option<Box<T>> { Some(Box::new(x)) }
pub uninterp spec fn uninit<T>() -> T;
pub open spec fn tr(i: int) -> bool { true }
pub open spec fn szmax() -> int { 0x4000_0000_0000_0000 }
'''

class Param: pass
class Sig:
    def components(s,n):
        if len(s.comps)==1: return {s.comps[0][0]:n}
        return {c[0]:f"{n}.{i}" for i,c in enumerate(s.comps)}

def is_iter(t):
    if t.k=='rec' and stdq(t.n) in('__gnu_cxx::__normal_iterator','std::_Rb_tree_iterator','std::_Rb_tree_const_iterator'): return True
    if t.k=='ptr' and t.to.k in('int',): return True
    return False

def make_sig(u,E,f,ct):
    """parameter plan of a function under contract"""
    if ct.name in u.fnsigs: return u.fnsigs[ct.name]
    sg=Sig(); sg.vname='f_'+ct.name; sg.has_this=bool(f.m and not f.static and f.kind!='ctor'); sg.throws=ct.throws
    sg.params=[]; sg.vparams=[]; sg.is_pure_bool=False
    tys=[]
    if sg.has_this:
        t=E.thisty(f); t2=u.hook_this(f,t) if hasattr(u,'hook_this') else t
        tys.append((t2,'ref',f.const))
    for p in f.pt:
        if p.k=='ref': tys.append((p.to,'ref',p.to.c or p.rv))
        else: tys.append((p,'val',True))
    if len(ct.params)!=len(tys): raise Unsupported(f"contract of {f.q}: {len(ct.params)} parameters declared, {len(tys)} found")
    conts=set(); outs=[]
    for nm,(t,mode,cst) in zip(ct.params,tys):
        p=Param(); p.ty=t; p.cont=None
        m=re.fullmatch(r'(\w+)(@([\w.]+))?(:(\w+))?(!?)',nm)
        p.name=m.group(1); p.flag=m.group(5)
        if p.name in ct.kinds: t=p.ty=E.kind_type(ct.kinds[p.name])
        if p.flag=='skip': p.kind='skip'
        elif p.flag=='graph':   # an object graph the contract sees only through its leaves
            p.kind='graph'; p.graph=ct.graph
            for n_,ty_ in ct.graph.leaves(E):
                q=Param(); q.name=n_; q.ty=ty_; q.kind='leaf'; vt_=u.vt(ty_)
                if not vt_: raise Unsupported(f"leaf type {ty_.s}")
                sg.vparams.append((n_,vt_)); outs.append((n_+'_out',vt_,q))
        elif p.flag=='self': p.kind='same'   # aliases the first parameter
        elif t.k=='rec' and stdq(t.n) in('std::back_insert_iterator','std::ostream_iterator'):
            p.kind='back'; p.cont=m.group(3); p.cty=t.args[0]
            if 'ostream' in t.n:
                c=Ty(); c.k='rec'; c.n='std::basic_ostream'; c.args=[t.args[1]]; c.key=None; c.rec=None; c.tu=t.tu; c._vt='Seq<u8>'; c.s='ostream'; c.c=False; p.cty=c
            vt=u.vt(p.cty)
            sg.vparams.append((p.cont,vt)); q=Param(); q.name=p.cont; q.ty=p.cty; q.kind='back'; outs.append((p.cont+'_out',vt,q))
        elif m.group(3):
            p.kind='it'; p.cont=m.group(3)
            if t.k=='rec': p.cty=t.args[1]
            else:
                c=Ty(); c.k='arr'; c.to=t.to; c.len=None; c.n=None; c.c=True; c.s='buf'; c.tu=t.tu; c._vt=f"Seq<{u.vt(t.to)}>"; p.cty=c
            if p.cont not in conts and '.' not in p.cont:
                conts.add(p.cont); sg.vparams.append((p.cont,u.vt(p.cty)))
            sg.vparams.append((p.name,'int'))
        elif t.k=='ptr' and p.flag!='raw':
            p.kind='ptr'; p.ty=t.to; vt=u.vt(t.to)
            if not vt: raise Unsupported(f"pointer parameter {t.s}")
            sg.vparams.append((p.name,vt)); sg.vparams.append((p.name+'_null','bool'))
            p.inout=not t.to.c and p.flag!='ro'
            if p.inout: outs.append((p.name+'_out',vt,p))
        else:
            vt=u.vt(t)
            if not vt: raise Unsupported(f"parameter type {t.s} of {f.q}")
            p.kind='val' if (mode=='val' or cst) and p.flag!='io' else 'inout'
            if p.flag=='out': p.kind='out'
            if p.kind!='out': sg.vparams.append((p.name,vt))
            if p.kind in('inout','out'): outs.append((p.name+'_out',vt,p))
        sg.params.append(p)
    sg.ghosts=[]
    for n_ in getattr(ct,'ghost',()):   # a global object the function writes, passed and returned explicitly
        cid,vt_,ty_=u.ghosts[n_]
        q=Param(); q.name=n_; q.ty=ty_; q.kind='ghost'; q.cid=cid
        sg.vparams.append((n_,vt_)); outs.append((n_+'_out',vt_,q)); sg.ghosts.append(q)
    comps=[]
    if sg.throws: comps.append(('exc','bool'))
    rt=f.rt; sg.rty=rt; sg.ret=None; sg.retkind=None
    if rt.k!='void' and f.kind!='ctor':
        r=ct.ret
        if rt.k=='ref' and r and r.startswith('='):
            sg.retkind='ref_param'; sg.retparam=[x.name for x in sg.params].index(r[1:]); sg.ret='ref'
        elif r and r.startswith('@'):
            sg.retcont=r[1:]; sg.ret='it'
            if rt.k=='rec' and stdq(rt.n) in('std::back_insert_iterator','std::ostream_iterator'): sg.retkind='back'
            elif is_iter(rt): sg.retkind='it'; comps.append(('ret','int'))
            else: sg.retkind='pair_it'; comps.append(('ret',f"({u.vt(rt.args[0])}, int)"))
        elif r and r.startswith('^'):
            sg.retkind='alias'; sg.retparam=[x.name for x in sg.params].index(r[1:]); sg.ret='ref'; comps.append(('ret_null','bool'))
        elif r=='opaque': sg.retkind='opaque'; sg.ret='ref'
        elif rt.k=='ref' and not rt.to.c and r!='val': raise Unsupported(f"contract of {f.q} returns a mutable reference")
        elif rt.k=='ptr' and u.vt(rt.to):
            # the result is a snapshot of the pointee: only sound when nothing can be written through it
            if not rt.to.c and r!='val': raise Unsupported(f"contract of {f.q} returns a pointer to mutable data")
            sg.rty=rt.to; sg.ret=u.vt(rt.to); sg.retkind='ptr'; comps.append(('ret',sg.ret)); comps.append(('ret_null','bool'))
        else:
            t=rt.to if rt.k=='ref' else rt
            vt=u.vt(t)
            if not vt: raise Unsupported(f"return type {rt.s} of {f.q}")
            sg.rty=t; sg.ret=vt; sg.retkind='val'; comps.append(('ret',vt))
    elif f.kind=='ctor':
        t=E.thisty(f); vt=u.vt(t); sg.rty=t; sg.ret=vt; sg.retkind='ctor'; comps.append(('ret',vt))
    for n,vt,p in outs:
        comps.append((p.name,vt))
    sg.outs=outs
    sg.comps=comps
    sg.rvt='()' if not comps else comps[0][1] if len(comps)==1 else '('+', '.join(c[1] for c in comps)+')'
    # names visible in ensures: ret, exc, X_out
    u.fnsigs[ct.name]=sg
    return sg

def post_binds(sg,r='r'):
    out=''
    c=sg.components(r)
    for n,vt in sg.comps:
        nm=n if n in('ret','exc','ret_null') else n+'_out'
        out+=f"let {nm} = {c[n]}; "
    return out

Unit.sig=lambda u,E,f,ct: make_sig(u,E,f,ct)

class Printer:
    def __init__(s): s.out=[]
    def line(s,d,t,ob=None): s.out.append('    '*d+t+(f" //OB {ob}" if ob else ''))

def expr_words(t): return set(re.findall(r'[A-Za-z_]\w*',t))

def pure_mif(n):
    """can the conditional join be re-evaluated as a pure expression?"""
    return all(x[0] in('let','pf','forall') or x[0]=='call' and x[7] or (x[0]=='mif' and pure_mif(x)) for x in n[2]+n[3])
def pure_expr(nodes,e):
    pre=''
    for n in nodes:
        if n[0]=='let': pre+=f"let {n[1]}: {n[2]} = {n[3]}; "
        elif n[0]=='mif':
            for nm,vt,a,b in n[4]:
                pre+=f"let {nm}: {vt} = if {n[1]} {{ {pure_expr(n[2],a)} }} else {{ {pure_expr(n[3],b)} }}; "
    return f"({{ {pre}{e} }})" if pre else e

class Ctx:
    """what is known at a loop head: ordered lets and facts, and opaque parameters"""
    def __init__(s): s.items=[]; s.params=[]
    def copy(s):
        c=Ctx(); c.items=list(s.items); c.params=list(s.params); return c
    def addnodes(s,nodes):
        for n in nodes:
            if n[0]=='let': s.items.append(('let',n[1],n[2],n[3]))
            elif n[0]=='pf':
                m=re.fullmatch(r'assert\((.*)\);',n[1],re.S)
                if m and n[2] is not None: s.items.append(('fact',m.group(1)))
            elif n[0]=='br': s.items.append(('fact',n[2] if n[3] else neg(n[2])))
            elif n[0]=='call':
                if not n[7]: s.params.append((n[1],n[2]))
                s.items.append(('fact',n[6])); s.items.append(('fact',n[5]))
            elif n[0]=='mif' and not pure_mif(n):
                s.hoist(n,[])
            elif n[0]=='mif':
                for nm,vt,a,b in n[4]:
                    s.items.append(('let',nm,vt,f"if {n[1]} {{ {pure_expr(n[2],a)} }} else {{ {pure_expr(n[3],b)} }}"))
            elif n[0]=='head': pass
    def hoist(s,n,guards):
        # conditional join with calls: lets are total, call results become opaque parameters with guarded facts
        for side,l in ((n[1],n[2]),(neg(n[1]),n[3])):
            g=guards+[side]; gs=' && '.join(f"({x})" for x in g)
            for x in l:
                if x[0]=='let': s.items.append(x)
                elif x[0]=='call':
                    if not x[7]: s.params.append((x[1],x[2]))
                    s.items.append(('fact',f"({gs}) ==> ({x[6]}) && ({x[5]})"))
                elif x[0]=='mif': s.hoist(x,g)
        for nm,vt,a,b in n[4]: s.items.append(('let',nm,vt,f"if {n[1]} {{ {a} }} else {{ {b} }}"))
    def lets_for(s,text):
        words=expr_words(text); keep=[]
        for it in reversed(s.items):
            if it[0]=='let' and it[1] in words:
                keep.append(it); words|=expr_words(it[3])
        keep.reverse(); return keep
    def wrap(s,e):
        ls=s.lets_for(e)
        if not ls: return e
        return '({ '+''.join(f"let {n}: {vt} = {x}; " for _,n,vt,x in ls)+e+' })'

class FnText: pass

def translate(u,f,ct,drop_invs=frozenset(),EngClass=Eng):
    """Verus text for function f under contract ct. Returns FnText."""
    E=EngClass(u,f,ct)
    sg=make_sig(u,E,f,ct)
    body=not ct.trusted
    st=St(); st.env={}; st.cells={}; st.this=None; st.tu=f.tu; st.facts=frozenset(); st.stack=(f,); st.loops=()
    F=LoopFn(E,sg.vname); F.isfn=True
    st.tr=T(None,('head',F))
    outplaces=[]
    pl=list(sg.params)
    env={}
    contcell={}
    ps=list(f.params or [])
    pplaces={}; allargs=[]
    for i,p in enumerate(pl):
        isthis=sg.has_this and i==0
        pid=None if isthis else ps[i-(1 if sg.has_this else 0)]['id'] if ps else f"arg{i}"
        if p.kind=='it' and '.' in p.cont:
            if p.cont not in contcell:
                b,*fs=p.cont.split('.')
                pp=pplaces[b]
                for x in fs: pp=pp.step('f',x)
                contcell[p.cont]=pp
        if p.kind=='it':
            if p.cont not in contcell:
                cid='p_'+p.cont+'#0'; st=st.cell(cid,S(p.cont,u.vt(p.cty),p.cty)); contcell[p.cont]=Place(cid); E.atoms[p.cont]=u.vt(p.cty)
            E.atoms[p.name]='int'
            kind='cstr' if p.flag=='cstr' else 'it'
            st,place=E.newcell(st,It(contcell[p.cont],S(p.name,'int',None),kind),p.name)
            env[pid]=place
        elif p.kind=='back':
            E.atoms[p.cont]=u.vt(p.cty)
            st,cp=E.newcell(st,S(p.cont,u.vt(p.cty),p.cty),p.cont)
            st,place=E.newcell(st,BackIt(cp),p.name); env[pid]=place
            q=Param(); q.name=p.cont; q.ty=p.cty; outplaces.append((q,cp)); contcell[p.cont]=cp
        elif p.kind=='same':
            place=pplaces[pl[0].name]; env[pid]=place
        elif p.kind=='graph':
            st,place,lv=p.graph.setup(E,st)
            for n_,pl_,ty_ in lv:
                q=Param(); q.name=n_; q.ty=ty_; outplaces.append((q,pl_))
            if isthis: st.this=place
            else: env[pid]=place
        elif p.kind=='skip':
            st,place=E.newcell(st,UNINIT,p.name)
            if isthis: st.this=place
            else: env[pid]=place
        elif p.kind=='ptr':
            E.atoms[p.name]=u.vt(p.ty)
            st,tp=E.newcell(st,E.lift(p.name,p.ty),p.name)
            if isthis: raise Unsupported('this')
            st,place=E.newcell(st,Ptr(tp,p.name+'_null',p.ty),p.name+'_p'); env[pid]=place
            if p.inout: outplaces.append((p,tp))
        elif p.kind=='out':
            st,place=E.newcell(st,E.arbitrary(st,p.ty),p.name); env[pid]=place; outplaces.append((p,place))
        else:
            E.atoms[p.name]=u.vt(p.ty)
            st,place=E.newcell(st,E.lift(p.name,p.ty),p.name)
            if isthis: st.this=place
            else: env[pid]=E.upplace(place,ct.kinds[p.name]) if p.name in ct.kinds else place
            if p.kind=='inout': outplaces.append((p,place))
        if p.kind!='back': pplaces[p.name]=tp if p.kind=='ptr' else place
        allargs.append(Ref(place))
    for q in sg.ghosts:
        E.atoms[q.name]=u.vt(q.ty); st=st.cell(q.cid,S(q.name,u.vt(q.ty),q.ty)); outplaces.append((q,Place(q.cid)))
    st.env=env
    for c in ([sg.retcont] if sg.retkind in('it','pair_it') else []):
        if c not in contcell and '.' in c:
            b,*fs=c.split('.'); pp=pplaces[b]
            for x in fs: pp=pp.step('f',x)
            contcell[c]=pp
    ctorplace=None
    if f.kind=='ctor':
        t=E.thisty(f); st,ctorplace=E.newcell(st,Obj(t,{n:UNINIT for n,_ in u.fields(t)}),'obj'); st.this=ctorplace
    for h in ct.hints: st=st.add('pf',h,None)
    n=0
    if hasattr(u,'entry_hook'): st=u.entry_hook(E,st,f,sg)
    def virtbody(st):
        for st1,v in E.dispatch(st,f,allargs[0],allargs[1:],None):
            yield st1,(('thr',v.name) if isinstance(v,Thr) else ('ret',v))
    for st1,o in ((virtbody(st) if ct.virt else E.body(st,f)) if body else ()):
        n+=1
        if n>E.MAXPATHS: raise Unsupported('too many paths')
        if hasattr(u,'exit_hook'): st1=u.exit_hook(E,st1,f)
        if o is None:
            if sg.ret is not None and f.kind!='ctor':
                st1=E.ob(st1,'false','control reaches the end of a non-void function')
                E.ends.append((st1.tr,('absurd',))); continue
            val=VOID; exc='false'
        elif o[0]=='ret': val=o[1]; exc='false'
        elif o[0]=='thr':
            if f.noexcept or not sg.throws:
                st1=E.ob(st1,'false',f"exception {o[1]} leaves {f.q}"+(' (noexcept: std::terminate)' if f.noexcept else ''))
                E.ends.append((st1.tr,('absurd',))); continue
            val=None; exc='true'
        else: raise Unsupported('break')
        parts=[]
        if sg.retkind=='back':
            v=E.rdref(st1,val)
            if not isinstance(v,BackIt) or v.place!=contcell[sg.retcont]: raise Unsupported('returned output iterator')
        for cn,vt in sg.comps:
            if cn=='exc': parts.append(exc)
            elif cn=='ret_null':
                v=E.rdref(st1,val) if val is not None else None
                parts.append('true' if v is None or isinstance(v,Ptr) and v.place is None else v.null if isinstance(v,Ptr) else 'false')
            elif cn=='ret' and sg.retkind=='ptr':
                v=E.rdref(st1,val) if val is not None else None
                if v is None or isinstance(v,Ptr) and v.place is None: parts.append(f"uninit::<{vt}>()")
                elif isinstance(v,Ptr): parts.append(E.lower(E.rd(st1,v.place),sg.rty))
                else: raise Unsupported('returned pointer')
            elif cn=='ret':
                if f.kind=='ctor': parts.append(E.lower(E.rd(st1,ctorplace),sg.rty)); continue
                if val is None: parts.append(f"uninit::<{vt}>()"); continue
                v=val
                if sg.retkind=='it':
                    v=E.rdref(st1,v)
                    if v.cont!=contcell[sg.retcont]: raise Unsupported('returned iterator is not into the declared container')
                    parts.append(v.idx.e)
                elif sg.retkind=='pair_it':
                    v=E.rdref(st1,v); it=v.f['second']
                    if it.cont!=contcell[sg.retcont]: raise Unsupported('returned iterator')
                    parts.append(f"({E.lower(v.f['first'],sg.rty.args[0])}, {it.idx.e})")
                else: parts.append(E.ret_value(st1,v,sg) if hasattr(E,'ret_value') else E.lower(E.rdref(st1,v),sg.rty))
            else:
                pp=[x for x in outplaces if x[0].name==cn][0]
                parts.append(E.lower(E.rd(st1,pp[1]),pp[0].ty))
        if sg.retkind=='alias' and val is not None:
            v=E.rdref(st1,val)
            want=E.alias_place(pplaces[pl[sg.retparam].name],f.rt.to,pl[sg.retparam].ty)
            if not isinstance(v,Ptr) or v.place is not None and v.place!=want: raise Unsupported('returned pointer is not the declared parameter')
        if sg.retkind=='ref_param' and val is not None:
            p=pl[sg.retparam]
            okp=[x[1] for x in outplaces if x[0] is p]
            if not isinstance(val,Ref) or not okp or val.place!=okp[0]: raise Unsupported('returned reference is not the declared parameter')
        r='()' if not parts else parts[0] if len(parts)==1 else '('+', '.join(parts)+')'
        E.ends.append((st1.tr,('result',r)))
    # ---- group path ends by root
    groups={}
    for t,tail in E.ends:
        groups.setdefault(id(t.root()),[]).append((t,tail))
    FT=FnText(); FT.sig=sg; FT.fn=f; FT.ct=ct; FT.E=E; FT.obs=0; FT.loops=[]; FT.invs=[]
    out=[]
    vps=sg.vparams
    plist=', '.join(f"{n}: {t}" for n,t in vps); pnames=', '.join(n for n,t in vps)
    reqs=[]
    for p in pl:
        if p.kind=='it':
            reqs.append(f"0 <= {p.name} <= {p.cont}.len()")
    for n_,t_ in vps:
        if t_.startswith('Seq<') and ct.size_req: reqs.append(f"{n_}.len() <= szmax()")
    if ct.size_req: u.assumptions.add("containers passed to a function under contract hold at most 2^62 elements (address-space bound)")
    reqs=list(dict.fromkeys(reqs))+list(ct.requires)
    out.append(f"pub open spec fn pre_{sg.vname}({plist}) -> bool {{ {' && '.join(f'({x})' for x in reqs) or 'true'} }}")
    binds=post_binds(sg)
    enss=list(ct.ensures)
    if ct.pure:
        if len(sg.comps)!=1: raise Unsupported('pure contract with several results')
        out.append(f"pub open spec fn val_{sg.vname}({plist}) -> {sg.rvt} {{ {ct.pure} }}")
        pn=sg.comps[0][0] if sg.comps[0][0] in("ret","ret_null") else sg.comps[0][0]+"_out"
        enss=[f"{pn} == val_{sg.vname}({pnames})"]+enss
    out.append(f"pub open spec fn post_{sg.vname}({plist}{', ' if plist else ''}r: {sg.rvt}) -> bool {{ {binds}{' && '.join(f'({x})' for x in enss+ct.axioms) or 'true'} }}")
    if not body or ct.axioms:
        bn=sg.vname+'_proved'
        out.append(f"pub proof fn {sg.vname}({plist}) -> (r: {sg.rvt})\n    requires pre_{sg.vname}({pnames}), //OB precondition of {f.q}\n    ensures post_{sg.vname}({', '.join([n for n,_ in vps]+['r'])}),\n{{ "+(f"let r = {bn}({pnames}); {binds}"+' '.join(f"assume({x});" for x in ct.axioms)+" r }" if body else f"assume(false); uninit::<{sg.rvt}>() }}"))
    else: bn=sg.vname
    if not body:
        FT.text=out; FT.loops=[]; return FT
    FT.npost=len(enss)
    loopfns=E.loops
    # contexts
    ctxs={}
    def ctx_of_root(owner):
        if owner is F:
            c=Ctx(); c.params=list(vps); c.items.append(('fact',f"pre_{sg.vname}({pnames})")); return c
        return ctxs[owner]
    depthmax=0
    for L in loopfns:
        owner=L.parent.root().n[1]
        c=ctx_of_root(owner).copy()
        if owner is not F: c.items.append(('let',owner.mname,'int',owner.measure))
        c.addnodes(L.parent.nodes()[1:])
        for leaf in L.leaves: c.params.append((leaf[0],leaf[1]))
        L.invl=[(c.wrap(e),src) for k,(e,src) in enumerate(L.invs) if (ct.name,L.name,e) not in drop_invs]
        L.invkeys=[(ct.name,L.name,e) for k,(e,src) in enumerate(L.invs) if (ct.name,L.name,e) not in drop_invs]
        for e,src in L.invs:
            if (ct.name,L.name,e) in drop_invs: continue
            c.items.append(('fact',e))
        ctxs[L]=c
        depthmax=max(depthmax,len(L.par)+1)
    for L in loopfns:
        L.invidx=list(range(len(FT.invs),len(FT.invs)+len(L.invkeys))); FT.invs+=L.invkeys
    fdec=[ct.dec] if isinstance(ct.dec,str) else list(ct.dec or [])
    dlen=2*depthmax+1
    def decs(L):
        ch=list(L.par)+[L] if L is not F else []
        r=[]
        for x in ch: r+= [f"{x.rank}int",f"{x.measure}"]
        r+=['1000000int']; r+=['0int']*(dlen-len(r))
        c=ctxs[L] if L is not F else None
        return fdec+[(c.wrap(e) if c else e) for e in r]
    recursive=bool(fdec)
    carried={x for c in ctxs.values() for x,_ in c.params}
    def exports(n):
        # results of calls inside a conditional join that a later loop is told about
        def calls(l):
            for x in l:
                if x[0]=='call' and not x[7] and x[1] in carried: yield x[1],x[2]
                elif x[0]=='mif': yield from calls(x[2]+x[3])
        a=dict(calls(n[2])); b=dict(calls(n[3])); u_=lambda t: f"uninit::<{t}>()"
        return [(k,t,k if k in a else u_(t),k if k in b else u_(t)) for k,t in {**a,**b}.items()]
    known={}   # branch conditions decided by the case under proof
    def emit_tree(P,paths,i,d):
        """paths: list of (nodes, tail)"""
        while True:
            if len(paths)==1 and i==len(paths[0][0]):
                tail(P,paths[0][1],d); return
            n=paths[0][0][i]
            if n[0]=='br' and n[2] in known:
                paths=[p for p in paths if p[0][i][1] is n[1] and p[0][i][3]==known[n[2]]]
                if not paths: raise Unsupported('internal: missing branch')
                i+=1; continue
            if n[0]=='br':
                yes=[p for p in paths if p[0][i][1] is n[1] and p[0][i][3]]
                no=[p for p in paths if p[0][i][1] is n[1] and not p[0][i][3]]
                if len(yes)+len(no)!=len(paths): raise Unsupported('internal: path structure')
                P.line(d,f"if {n[2]} {{")
                if yes: emit_tree(P,yes,i+1,d+1)
                else: raise Unsupported('internal: missing branch')
                P.line(d,"} else {")
                if no: emit_tree(P,no,i+1,d+1)
                else: raise Unsupported('internal: missing branch')
                P.line(d,"}")
                return
            for p in paths:
                if p[0][i] is not n: raise Unsupported('internal: path structure')
            emit_node(P,n,d); i+=1
    def emit_node(P,n,d):
        k=n[0]
        if k=='let': P.line(d,f"let {n[1]}: {n[2]} = {n[3]};")
        elif k=='pf':
            P.line(d,n[1],n[2])
            if n[2] is not None: FT.obs+=1
        elif k=='call': P.line(d,f"let {n[1]}: {n[2]} = {n[3]};",n[4]); FT.obs+=1
        elif k=='forall':
            P.line(d,f"assert forall|{n[1]}: int| #![trigger tr({n[1]})] {n[2]} implies true by {{")
            for x in n[3]: emit_node(P,x,d+1)
            P.line(d,"}")
        elif k=='mif':
            js=n[4]
            if n[1] in known:
                b=2 if known[n[1]] else 3
                for x in n[b]: emit_node(P,x,d)
                for j in js: P.line(d,f"let {j[0]}: {j[1]} = {j[b]};")
                return
            if not js and not exports(n):
                P.line(d,f"if {n[1]} {{"); [emit_node(P,x,d+1) for x in n[2]]; P.line(d,"} else {"); [emit_node(P,x,d+1) for x in n[3]]; P.line(d,"}")
                return
            js=js+exports(n)
            nm=', '.join(j[0] for j in js); ty=', '.join(j[1] for j in js); a=', '.join(j[2] for j in js); b=', '.join(j[3] for j in js)
            if len(js)>1: nm,ty,a,b=[f"({x})" for x in (nm,ty,a,b)]
            P.line(d,f"let {nm}: {ty} = if {n[1]} {{")
            for x in n[2]: emit_node(P,x,d+1)
            P.line(d+1,a); P.line(d,"} else {")
            for x in n[3]: emit_node(P,x,d+1)
            P.line(d+1,b); P.line(d,"};")
        elif k=='head': pass
        else: raise AssertionError(k)
    def tail(P,t,d):
        if t[0]=='result':
            for h in ct.endhints:
                P.line(d,f"let r: {sg.rvt} = {t[1]};"); P.line(d,binds); P.line(d,h)
            P.line(d,t[1],f"postcondition of {f.q}"); FT.obs+=len(enss)
        elif t[0]=='absurd': P.line(d,"vstd::pervasive::proof_from_false()" )
        elif t[0]=='loop':
            L=t[1]; m=t[2]
            if len(L.invl)>2:
                lv=[l for l in L.leaves if l]
                if len(lv)==1: lets=f"let {lv[0][0]}: {lv[0][1]} = {m[lv[0][0]]}; "
                else: lets=f"let ({', '.join(l[0] for l in lv)}): ({', '.join(l[1] for l in lv)}) = ({', '.join(m[l[0]] for l in lv)}); " if lv else ''
                for (e,src),k in zip(L.invl,L.invidx): P.line(d,f"assert({{ {lets}{e} }});",f"INV {k} invariant at {L.label}: {src}")
            P.line(d,f"{L.name}({', '.join(m.get(n,n) for n,_ in ctxs[L].params)})",f"loop entry/iteration at {L.label}"); FT.obs+=len(L.invl)+1
    def ens(P):
        if enss:
            P.line(1,"ensures")
            for i,x in enumerate(enss):
                P.line(2,f"({{ {binds}{x} }}),",f"postcondition {i+1} of {f.q}: {x}")
    def group(root): return groups.get(id(root),[])
    P=Printer()
    P.line(0,f"pub proof fn {bn}({plist}) -> (r: {sg.rvt})")
    P.line(1,"requires"); P.line(2,f"pre_{sg.vname}({pnames}),",f"precondition of {f.q}")
    ens(P)
    if recursive or loopfns: P.line(1,"decreases "+', '.join(decs(F)))
    P.line(0,"{")
    def nodes_of(t): return t.nodes()
    froot=st.tr.root()
    g=group(froot)
    if ct.split and not loopfns:
        # one function per kind of the split parameter; the contract function itself only distributes
        sv,kinds=ct.split; calls=[]
        i0=len(P.out); pre=P.out[:]; 
        for k,X in enumerate(kinds):
            P.line(1,f"{'if' if k==0 else 'else if' if k<len(kinds)-1 else 'else'} {f'({sv} is {X}) ' if k<len(kinds)-1 else ''}{{ {bn}__{X}({pnames}) }}",f"postcondition of {f.q}")
        P.line(0,"}")
        ib=next(i for i,l in enumerate(P.out) if l.startswith(f"pub proof fn {bn}(")); head=P.out[ib:i0]
        for X in kinds:
            known.clear(); known.update({f"({sv} is {Y})":Y==X for Y in kinds})
            for l in head:
                if l.startswith(f"pub proof fn {bn}("): l=l.replace(f"fn {bn}(",f"fn {bn}__{X}(",1)
                if l.startswith('    requires'): l=f"    requires {sv} is {X},"
                if l.startswith('    decreases') : l=l.replace('1000000int','999999int')
                P.out.append(l)
            emit_tree(P,[(t.nodes(),tail_) for t,tail_ in g],0,1)
            P.line(0,"}")
        known.clear()
        if not (recursive or loopfns): pass
    else:
        emit_tree(P,[(t.nodes(),tail_) for t,tail_ in g],0,1)
        P.line(0,"}")
    # vacuity probe: the same body must not prove false
    FT.smoke=[]
    i0=next(i for i,l in enumerate(P.out) if l.startswith(f"pub proof fn {bn}("))
    probe=list(P.out[i0:])
    ib=next(i for i,l in enumerate(probe) if l=='{')
    if not recursive:
        probe=[probe[0].replace(f"fn {bn}(",f"fn smoke_{bn}("),probe[1],probe[2],'    ensures false,']+(['    decreases '+', '.join(['2000000int']+decs(F)[1:])] if loopfns else [])+probe[ib:]
        FT.smoke.append((f"smoke_{bn}",'\n'.join(x.split(' //OB ')[0] for x in probe)))
    for L in loopfns:
        c=ctxs[L]
        g=group(L.head.tr.root())
        B=Printer()
        emit_tree(B,[(t.nodes(),tail_) for t,tail_ in g],0,1)
        P.line(0,f"pub proof fn {L.name}({', '.join(f'{n}: {t}' for n,t in c.params)}) -> (r: {sg.rvt})")
        P.line(1,"requires")
        own=set(e for e,_ in L.invs)
        fx=[it for it in c.items if it[0]=='fact' and it[1] not in own]
        e=' && '.join(f"({x[1]})" for x in fx) or 'true'
        P.line(2,c.wrap(e)+',',f"path facts at {L.label}")
        for (e,src),k in zip(L.invl,L.invidx):
            P.line(2,e+',',f"INV {k} invariant at {L.label}: {src}")
        ens(P)
        P.line(1,"decreases "+', '.join(decs(L)))
        P.line(0,"{")
        for _,n_,vt,x in c.lets_for('\n'.join(B.out)): P.line(1,f"let {n_}: {vt} = {x};")
        P.out+=B.out
        P.line(0,"}")
    FT.text=out+P.out
    FT.loops=[(L.name,L.label) for L in loopfns]
    return FT
