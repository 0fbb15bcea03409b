"""Object graphs wired up by a constructor (an object holding pointers into itself and to a functor).

A contract sees such an argument only through its leaves. On entry the graph is built by executing the real constructor
symbolically, so that the wiring verified is the constructor's; at a call the argument's wiring is compared with it."""
from .engine import *
def fields_shape(E,st,v,seen,path,out):
    pass
class Graph:
    def __init__(s,key,root,leaves):
        """key: class built by its one-argument constructor; root: path from the object to the argument;
        leaves: name -> path from the argument ('*' follows a pointer or reference)"""
        s.key=key; s.root=root; s.lv=leaves
    def ctor(s,E):
        for tu in E.P.tus:
            for i in range(len(tu.d['fns'])):
                g=E.P.fn(tu,i)
                if g.kind=='ctor' and g.rec is not None and s.match(g.rec.key) and len(g.pt)==1 and not g.copy and not g.move and g.has_body and s.functor(g.pt[0].to): return g
        raise Unsupported(f"no constructor of {s.key}")
    def match(s,k): return k==s.key
    def functor(s,t): return True
    def leaves(s,E):
        if getattr(s,'_P',None) is not E.P: s._P=E.P; s.build(E)
        return [(n,ty) for n,ty in s._l]
    def fresh(s,E,st):
        f=s.ctor(E); t=E.thisty(f)
        E.u.inlined.add(f"{f.q} ({(f.file or '').replace('/repo/','')}:{f.line})")
        ft=f.pt[0].to
        st,fp=E.newcell(st,E.lift('functor_',ft),'functor')
        st,op=E.newcell(st,Obj(t,{n:UNINIT for n,_ in E.u.fields(t)}),'graph')
        rs=list(E.inline(st,f,op,[Ref(fp)],None))
        if len(rs)!=1 or isinstance(rs[0][1],Thr) or rs[0][0].tr is not st.tr: raise Unsupported(f"constructor of {s.key} is not a plain wiring")
        pl,_=s.walk(E,rs[0][0],op,s.root)
        return rs[0][0],pl
    def walk(s,E,st,pl,path):
        shape=[]
        for x in path:
            v=E.rd(st,pl)
            if x=='*':
                if not isinstance(v,(Ref,Ptr)) or v.place is None or isinstance(v,Ptr) and v.null!='false': raise Unsupported('object graph: not a pointer')
                pl=v.place
            else:
                shape.append(v.ty.key if isinstance(v,Obj) else '?')
                pl=pl.step('f',x)
        return pl,tuple(shape)
    def build(s,E):
        st=St(); st.env={}; st.cells={}; st.this=None; st.tu=E.P.tus[0]; st.facts=frozenset(); st.stack=(); st.loops=(); st.tr=T(None,('head',None))
        st,pl=s.fresh(E,st)
        s._l=[]; s.shape={}
        for n,path in s.lv.items():
            q,sh=s.walk(E,st,pl,path); s.shape[n]=sh
            if n.startswith('='):
                if q!=pl: raise Unsupported(f"object graph: {n} does not lead back")
                continue
            v=E.rd(st,q)
            if not hasattr(v,'ty') or v.ty is None: raise Unsupported(f"object graph: leaf {n}")
            s._l.append((n,v.ty))
    def setup(s,E,st):
        st,pl=s.fresh(E,st); out=[]
        for n,ty in s.leaves(E):
            q,_=s.walk(E,st,pl,s.lv[n])
            E.atoms[n]=E.u.vt(ty); st=E.wr(st,q,E.lift(n,ty)); out.append((n,q,ty))
        return st,pl,out
    def resolve(s,E,st,v):
        if not isinstance(v,Ref): raise Unsupported('object graph argument')
        s.leaves(E); out=[]
        for n,path in s.lv.items():
            q,sh=s.walk(E,st,v.place,path)
            if sh!=s.shape[n]: raise Unsupported(f"object graph: {n} has another shape")
            if n.startswith('='):
                if q!=v.place: raise Unsupported(f"object graph: {n} does not lead back")
            else: out.append((n,q,dict(s._l)[n]))
        return out
