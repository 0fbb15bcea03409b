"""Symbolic translation of C++ functions (typed ASTs) into Verus proof functions: values, state, trails.

Values (Python objects) held in memory cells:
  S    data value: a Verus expression. Machine integers live in the `int` domain (exact mathematical value).
  Obj  class object held field by field
  It   iterator / pointer into a contiguous container
  Ptr  pointer to a place with a nullness condition
  Ref  reference (result of evaluating a glvalue; also reference members)
  Clo  closure,  FnP function pointer,  Lst literal array
Everything that can be undefined behaviour emits a proof obligation.
"""
import re

class Unsupported(Exception): pass
class NoMerge(Exception): pass

class S:
    """e: Verus expression; ty: Ty; vt: 'int' | 'bool' | storage type of a class value"""
    __slots__=('e','vt','ty','c','rng','tz','byte')
    def __init__(s,e,vt,ty=None,c=None,rng=None,tz=0,byte=None):
        s.e=e; s.vt=vt; s.ty=ty; s.c=c; s.rng=rng; s.tz=tz; s.byte=byte
    def __repr__(s): return f"S({s.e}:{s.vt})"
class Obj:
    def __init__(s,ty,f): s.ty=ty; s.f=f
    def __repr__(s): return f"Obj({s.ty},{s.f})"
class It:
    """cont: Place of a container; idx: S; kind 'it' | 'cstr' | 'rev' | 'map'"""
    def __init__(s,cont,idx,kind='it'): s.cont=cont; s.idx=idx; s.kind=kind
    def __repr__(s): return f"It({s.cont},{s.idx},{s.kind})"
class Ptr:
    def __init__(s,place,null='false',ty=None): s.place=place; s.null=null; s.ty=ty
    def __repr__(s): return f"Ptr({s.place},{s.null})"
class Ref:
    def __init__(s,place): s.place=place
    def __repr__(s): return f"Ref({s.place})"
class Clo:
    def __init__(s,node,tu,caps,this): s.node=node; s.tu=tu; s.caps=caps; s.this=this
class FnP:
    def __init__(s,fn,obj=None): s.fn=fn; s.obj=obj
class BackIt:
    def __init__(s,place,kind='back'): s.place=place; s.kind=kind
class Lst:
    def __init__(s,vs,ty): s.vs=vs; s.ty=ty
class Thr:
    """exception in flight"""
    def __init__(s,name): s.name=name
class Opaque:
    def __init__(s,tag): s.tag=tag
class Void: pass
VOID=Void()
UNINIT=None

def atomic(e): return re.fullmatch(r'[A-Za-z_][A-Za-z_0-9]*|-?\d+|\(-\d+\)',e) is not None
def balanced(s):
    d=0
    for ch in s:
        if ch in '([{': d+=1
        elif ch in ')]}':
            d-=1
            if d<0: return False
    return d==0
def neg(c):
    if c=='true': return 'false'
    if c=='false': return 'true'
    if c.startswith('!(') and c.endswith(')') and balanced(c[2:-1]): return c[2:-1]
    return f"!({c})"
def conj(a,b):
    if a=='true': return b
    if b=='true': return a
    if a=='false' or b=='false': return 'false'
    return f"(({a}) && ({b}))"
def disj(a,b):
    if a=='false': return b
    if b=='false': return a
    if a=='true' or b=='true': return 'true'
    return f"(({a}) || ({b}))"
def conjs(l):
    r='true'
    for x in l: r=conj(r,x)
    return r
def ite(c,a,b):
    if c=='true': return a
    if c=='false': return b
    if a==b: return a
    if a=='true' and b=='false': return c
    if a=='false' and b=='true': return neg(c)
    return f"(if {c} {{ {a} }} else {{ {b} }})"
def stdq(q):
    return q.replace('std::__cxx11::','std::').replace('std::__1::','std::').replace('std::__detail::','std::')

class Place:
    __slots__=('cid','path')
    def __init__(s,cid,path=()): s.cid=cid; s.path=path
    def step(s,*st): return Place(s.cid,s.path+(tuple(st),))
    def key(s): return (s.cid,s.path)
    def __eq__(s,o): return isinstance(o,Place) and s.cid==o.cid and s.path==o.path
    def __hash__(s): return hash((s.cid,s.path))
    def __repr__(s): return f"<{s.cid}{''.join('.'+str(x) for p in s.path for x in p)}>"

class T:
    """trail: linked list of emission nodes"""
    __slots__=('p','n')
    def __init__(s,p,n): s.p=p; s.n=n
    def nodes(s,upto=None):
        r=[]; t=s
        while t is not None and t is not upto:
            r.append(t.n); t=t.p
        r.reverse(); return r
    def root(s):
        t=s
        while t.p is not None: t=t.p
        return t

class St:
    """Immutable-by-convention machine state (copy on write)."""
    __slots__=('env','cells','this','tu','tr','facts','stack','loops')
    def copy(s):
        n=St()
        n.env=s.env; n.cells=s.cells; n.this=s.this; n.tu=s.tu; n.tr=s.tr; n.facts=s.facts; n.stack=s.stack; n.loops=s.loops
        return n
    def bind(s,vid,place):
        n=s.copy(); n.env=dict(s.env); n.env[vid]=place; return n
    def cell(s,cid,v):
        n=s.copy(); n.cells=dict(s.cells); n.cells[cid]=v; return n
    def frame(s,env,this,tu,fn):
        n=s.copy(); n.env=env; n.this=this; n.tu=tu; n.stack=s.stack+(fn,); return n
    def back(s,old):
        n=s.copy(); n.env=old.env; n.this=old.this; n.tu=old.tu; n.stack=old.stack; return n
    def fact(s,c):
        if c=='true' or c in s.facts: return s
        n=s.copy(); n.facts=s.facts|{c}; return n
    def add(s,*node):
        n=s.copy(); n.tr=T(s.tr,node); return n
