"""Specification library for refract elements: well-formedness, clone, equality; contracts shared between properties."""
from .engine import Contract as C
from .poly import KINDS, kind_of_ty
from .core import stdq
SEQS=('Array','Object','Extend','Option')
NAMES=dict(Null='null',Holder='',String='string',Number='number',Boolean='boolean',Array='array',Member='member',Object='object',Enum='enum',Ref='ref',Extend='extend',Option='option',Select='select')
def lit(s): return 'seq!['+', '.join(f"{b}u8" for b in s.encode())+']' if s else 'Seq::<u8>::empty()'
ENT='(Seq<u8>, Option<Box<El>>)'
def wf():
    o="pub open spec fn wf_ob(p: Option<Box<El>>) -> bool decreases p { match p { Some(b) => wf(*b), None => true } }\n"
    o+="pub open spec fn wf_obo(p: Option<Box<E_Option>>) -> bool decreases p { match p { Some(b) => wf_Option(*b), None => true } }\n"
    o+="pub open spec fn wf_Option(x: E_Option) -> bool decreases x { wf_ie(x.meta_) && wf_ie(x.attributes_) && wf_dOption(x.data_) }\n"
    o+="pub open spec fn wf_ie(m: IE) -> bool decreases m { m.elements.len() <= szmax() && forall|i: int| 0 <= i < m.elements.len() ==> (#[trigger] m.elements[i]).1 is Some && wf_ob(m.elements[i].1) }\n"
    for X in SEQS: o+=f"pub open spec fn wf_d{X}(d: D_{X}) -> bool decreases d {{ d.elements_.len() <= szmax() && forall|i: int| 0 <= i < d.elements_.len() ==> (#[trigger] d.elements_[i]) is Some && wf_ob(d.elements_[i]) }}\n"
    o+="pub open spec fn wf_dSelect(d: D_Select) -> bool decreases d { d.elements_.len() <= szmax() && forall|i: int| 0 <= i < d.elements_.len() ==> (#[trigger] d.elements_[i]) is Some && wf_obo(d.elements_[i]) }\n"
    b=[]
    for X in KINDS:
        if X in SEQS or X=='Select': d=f'wf_d{X}(x.data_)'
        elif X=='Holder': d='wf_ob(x.data_.data_)'
        elif X=='Enum': d='wf_ob(x.data_.value_)'
        elif X=='Member': d='wf_ob(x.data_.key_) && wf_ob(x.data_.value_)'
        else: d='true'
        b.append(f"El::{X}(x) => wf_ie(x.meta_) && wf_ie(x.attributes_) && {d}")
    o+="pub open spec fn wf(e: El) -> bool decreases e { match e { "+', '.join(b)+" } }\n"
    return o
WF='''// an element is well-formed when its collections hold no null children (what every constructor and mutator establishes)
'''+wf()
def ddef(X):
    if X in SEQS or X=='Select': return f"D_{X} {{ elements_: Seq::empty() }}"
    return {'Null':'D_Null { }','Holder':'D_Holder { data_: None }','String':'D_String { value_: Seq::empty() }','Number':f"D_Number {{ value_: {lit('0')} }}",'Boolean':'D_Boolean { data_: false }',
            'Member':'D_Member { key_: None, value_: None }','Enum':'D_Enum { value_: None }','Ref':'D_Ref { data_: Seq::empty() }'}[X]
CLONE='''
pub open spec fn empty_ie() -> IE { IE { elements: Seq::empty() } }
pub open spec fn fbit(f: int, k: int) -> bool { (f / k) % 2 != 0 }
// entries whose key differs from k, in order
pub open spec fn ie_without(s: Seq<ENT>, k: Seq<u8>) -> Seq<ENT> decreases s.len() { if s.len() == 0 { s } else if s.last().0 != k { ie_without(s.drop_last(), k).push(s.last()) } else { ie_without(s.drop_last(), k) } }
pub proof fn lem_without_len(s: Seq<ENT>, k: Seq<u8>) ensures ie_without(s, k).len() <= s.len(),
  forall|i: int| 0 <= i < ie_without(s, k).len() ==> (#[trigger] ie_without(s, k)[i]).0 != k && s.contains(ie_without(s, k)[i]) decreases s.len()
{ if s.len() > 0 { lem_without_len(s.drop_last(), k); let w = ie_without(s.drop_last(), k); let r = ie_without(s, k);
  assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0 != k && s.contains(r[i]) by {
    if i < w.len() { assert(r[i] == w[i]); let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == w[i]; assert(s[j] == w[i]); } else { assert(s[s.len() - 1] == r[i]); } } } }
pub open spec fn id_key() -> Seq<u8> { IDKEY }
pub open spec fn clone_meta(m: IE, f: int) -> IE { if !fbit(f, 1) { empty_ie() } else if fbit(f, 16) { IE { elements: ie_without(m.elements, id_key()) } } else { m } }
'''.replace('ENT',ENT).replace('IDKEY',lit('id'))
def cl():
    o="pub open spec fn clone_sp(e: El, f: int) -> El { match e { "
    for X in KINDS:
        o+=f"El::{X}(x) => El::{X}(E_{X} {{ meta_: clone_meta(x.meta_, f), attributes_: if fbit(f, 2) {{ x.attributes_ }} else {{ empty_ie() }}, hasValue_: fbit(f, 4) && x.hasValue_, data_: if fbit(f, 4) {{ x.data_ }} else {{ {ddef(X)} }}, name_: if fbit(f, 8) {{ x.name_ }} else {{ {lit(NAMES[X])} }} }}), "
    o+="} }\n// the property: a full clone is the original\npub proof fn full_clone(e: El) ensures clone_sp(e, 15) == e { reveal(fbit); }\n"
    return o
CLONE+=cl()
def kr(f,i=0): return f.pt[i].to if f.pt[i].k in('ref','ptr') else f.pt[i]
def of(X): return lambda f: f.rec is not None and f.rec.key==f'refract::Element<refract::dsd::{X}>'
def copyctor(X): return lambda f: f.rec is not None and f.rec.key==f'refract::dsd::{X}' and f.copy
ERASEHINT="assert forall|p: spec_fn(%s) -> bool| (forall|i: int| 0 <= i < this_.elements.len() ==> p(#[trigger] this_.elements[i]) == (this_.elements[i].0 != key)) implies #[trigger] keep_(this_.elements, p) == ie_without(this_.elements, key) by { lem_without(this_.elements, p, key); }"%ENT
def clone_contracts():
    l=[C('clone','refract::IElement::clone',['this_','flags'],virt=True,pure='Some(Box::new(clone_sp(this_, flags as int)))',requires=['wf(this_)'],dec=['this_','1int'],size_req=False)]
    for X in KINDS: l.append(C('clone_'+X,'refract::Element::clone',['this_','flags'],sig=of(X),pure=f'Some(Box::new(clone_sp(El::{X}(this_), flags as int)))',requires=[f'wf(El::{X}(this_))'],dec=['this_','0int'],size_req=False))
    l.append(C('ie_copy','refract::InfoElements::InfoElements',['other'],sig=lambda f: f.copy,pure='other',requires=['wf_ie(other)'],dec=['other','0int'],size_req=False,invs=['{o:Seq<ENT>} =~= other.elements.take({i:it})'.replace('ENT',ENT),'{o:Seq<ENT>} =~= other.elements.take({i:int})'.replace('ENT',ENT)],endhints=['assert(r.elements =~= other.elements);']))
    for X in SEQS+('Select',):
        l.append(C('copy_'+X,f'refract::dsd::{X}::{X}',['other'],sig=lambda f: f.copy,pure='other',requires=[f'wf_d{X}(other)'],dec=['other','0int'],size_req=False,invs=[f"{{o:Seq<Option<Box<{'E_Option' if X=='Select' else 'El'}>>>}} =~= other.elements_.take({{i:{k}}})" for k in('it','int')],endhints=['assert(r.elements_ =~= other.elements_);']))
    return l
def ie_erase(): return C('ie_erase_key','refract::InfoElements::erase',['this_','key'],sig=lambda f: not f.pt[0].k=='rec',requires=['wf_ie(this_)'],ensures=['this__out.elements =~= ie_without(this_.elements, key)'],hints=[ERASEHINT,'lem_without_len(this_.elements, key);'])
IELIB='''
pub proof fn lem_without(s: Seq<ENT>, p: spec_fn(ENT) -> bool, k: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == (s[i].0 != k) ensures keep_(s, p) == ie_without(s, k) decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i]) == (s.drop_last()[i].0 != k) by { assert(s.drop_last()[i] == s[i]); } assert(p(s[s.len() - 1]) == (s[s.len() - 1].0 != k)); lem_without(s.drop_last(), p, k); } }
pub open spec fn ie_idx(s: Seq<ENT>, k: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { let r = ie_idx(s.drop_last(), k); if r < s.len() - 1 { r } else if s.last().0 == k { s.len() - 1 } else { s.len() as int } } }
pub proof fn lem_idx(s: Seq<ENT>, k: Seq<u8>) ensures 0 <= ie_idx(s, k) <= s.len(), ie_idx(s, k) < s.len() ==> s[ie_idx(s, k)].0 == k, forall|j: int| 0 <= j < ie_idx(s, k) ==> (#[trigger] s[j]).0 != k decreases s.len()
{ if s.len() > 0 { lem_idx(s.drop_last(), k); assert forall|j: int| 0 <= j < ie_idx(s, k) implies (#[trigger] s[j]).0 != k by { if j < s.len() - 1 { assert(s.drop_last()[j] == s[j]); } } if ie_idx(s.drop_last(), k) < s.len() - 1 { assert(s.drop_last()[ie_idx(s.drop_last(), k)] == s[ie_idx(s.drop_last(), k)]); } } }
pub open spec fn ie_set(s: Seq<ENT>, k: Seq<u8>, v: Option<Box<El>>) -> Seq<ENT> { let i = ie_idx(s, k); if i < s.len() { s.update(i, (k, v)) } else { s.push((k, v)) } }
pub open spec fn unique_keys(s: Seq<ENT>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
// the property as lemmas over the contracts: keys stay unique, the set value is the one found, nothing else changes
pub proof fn c16_set(s: Seq<ENT>, k: Seq<u8>, v: Option<Box<El>>) requires unique_keys(s)
  ensures unique_keys(ie_set(s, k, v)), ie_idx(ie_set(s, k, v), k) == ie_idx(s, k), ie_set(s, k, v)[ie_idx(s, k)] == (k, v),
    forall|j: int| 0 <= j < s.len() && j != ie_idx(s, k) ==> #[trigger] ie_set(s, k, v)[j] == s[j]
{ lem_idx(s, k); let t = ie_set(s, k, v); lem_idx(t, k); let i = ie_idx(s, k);
  assert(t[i].0 == k);
  assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).0 != (#[trigger] t[b]).0 by { if a < s.len() && a != i { assert(t[a] == s[a]); } if b < s.len() && b != i { assert(t[b] == s[b]); } if a == i && i < s.len() { assert(s[a].0 != s[b].0); } if b == i && i < s.len() { assert(s[a].0 != s[b].0); } }
  assert(ie_idx(t, k) <= i); if ie_idx(t, k) < i { assert(t[ie_idx(t, k)] == s[ie_idx(t, k)]); } }
'''.replace('ENT',ENT)
ITSIG=lambda f: len(f.pt)==1 and f.pt[0].k=='rec' and 'iterator' in f.pt[0].n
KEYSIG=lambda f: len(f.pt)==1 and not(f.pt[0].k=='rec' and 'iterator' in f.pt[0].n)
Q='refract::InfoElements::'
def ie_contracts():
    W=['wf_ie(this_)']
    return [C('ie_size',Q+'size',['this_'],requires=W,ensures=['ret == this_.elements.len()']),
     C('ie_empty',Q+'empty',['this_'],ensures=['ret == (this_.elements.len() == 0)']),
     C('ie_begin',Q+'begin',['this_'],sig=lambda f: f.const,ret='@this_.elements',ensures=['ret == 0']),
     C('ie_end',Q+'end',['this_'],sig=lambda f: f.const,ret='@this_.elements',ensures=['ret == this_.elements.len()']),
     C('ie_begin_m',Q+'begin',['this_'],sig=lambda f: not f.const,ret='@this_.elements',ensures=['ret == 0','this__out == this_']),
     C('ie_end_m',Q+'end',['this_'],sig=lambda f: not f.const,ret='@this_.elements',ensures=['ret == this_.elements.len()','this__out == this_']),
     C('ie_clear',Q+'clear',['this_'],ensures=['this__out == empty_ie()']),
     C('ie_find',Q+'find',['this_','name'],sig=lambda f: f.const,requires=W,ret='@this_.elements',ensures=['ret == ie_idx(this_.elements, name)'],hints=['lem_idx(this_.elements, name);'],size_req=False),
     C('ie_find_m',Q+'find',['this_','name'],sig=lambda f: not f.const,requires=W,ret='@this_.elements',ensures=['ret == ie_idx(this_.elements, name)','this__out == this_'],hints=['lem_idx(this_.elements, name);'],size_req=False),
     ie_erase(),
     C('ie_erase_it',Q+'erase',['this_','it@this_.elements'],sig=ITSIG,requires=['it < this_.elements.len()'],ensures=['this__out.elements =~= this_.elements.remove(it)']),
     C('ie_set',Q+'set',['this_','key','value'],sig=lambda f: f.pt[1].k=='rec',ret='opaque',requires=W+['value is Some'],ensures=['this__out.elements =~= ie_set(this_.elements, key, value)'],hints=['lem_idx(this_.elements, key);'],size_req=False),
     C('ie_set_copy',Q+'set',['this_','key','value'],sig=lambda f: f.pt[1].k!='rec',ret='opaque',requires=W+['wf(value)'],ensures=['this__out.elements =~= ie_set(this_.elements, key, Some(Box::new(value)))'],hints=['full_clone(value);']),
     C('ie_claim',Q+'claim',['this_','key'],sig=KEYSIG,requires=W,ensures=['ie_idx(this_.elements, key) < this_.elements.len() ==> ret == this_.elements[ie_idx(this_.elements, key)].1 && this__out.elements =~= this_.elements.remove(ie_idx(this_.elements, key))','ie_idx(this_.elements, key) == this_.elements.len() ==> ret is None && this__out == this_'],hints=['lem_idx(this_.elements, key);']),
     C('ie_claim_it',Q+'claim',['this_','it@this_.elements'],sig=ITSIG,requires=W+['it < this_.elements.len()'],ensures=['ret == this_.elements[it].1','this__out.elements =~= this_.elements.remove(it)']),
     C('ie_clone',Q+'clone',['this_','other'],requires=W+['wf_ie(other)'],ensures=['this__out.elements =~= this_.elements + other.elements']),
     C('ie_move',Q+'InfoElements',['other:io'],sig=lambda f: f.move,ensures=['ret == other','other_out == empty_ie()']),
     C('ie_assign',Q+'operator=',['this_','rhs'],ret='=this_',ensures=['this__out == rhs']),
     C('ie_swap','refract::swap',['lhs','rhs'],sig=lambda f: 'InfoElements' in f.pt[0].s,ensures=['lhs_out == rhs','rhs_out == lhs']),
    ]
TQV='refract::TypeQueryVisitor::'
# the enumerator of each kind, from the property (order of the declaration), not from the code under proof
TQORD=['Null','Holder','String','Number','Boolean','Array','Member','Object','Enum','Ref','Extend','Option','Select']
TQ="pub open spec fn tq_code(e: El) -> u32 { match e { "+', '.join(f"El::{X}(_) => {i}u32" for i,X in enumerate(TQORD))+" } }\n"
def tq_contracts():
    return [C('tq_visit',TQV+'operator()',['this_','e'],sig=lambda f: f.pt[0].to.k=='rec' and stdq(f.pt[0].to.n)=='refract::IElement',ensures=['this__out.typeInfo == tq_code(e)']),C('tq_get',TQV+'get',['this_'],ensures=['ret == this_.typeInfo'])]
def as_contracts(X,consts=(0,1),ifpresent=True):
    return [C(f"as_{X}_{c}",TQV+'as',['e:ro'],sig=lambda f,c=c: kind_of_ty(f.rt.to)==X and bool(f.pt[0].to.c)==bool(c),ret='^e',pure=f'(e_null || !(e is {X}))',ifpresent=ifpresent) for c in consts]
# ---- containers
CONT='''
pub open spec fn ins<T>(s: Seq<T>, i: int, v: T) -> Seq<T> { s.subrange(0, i).push(v) + s.subrange(i, s.len() as int) }
pub open spec fn cut<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.subrange(0, a) + s.subrange(b, s.len() as int) }
// the text key of a set member with a set string key
pub open spec fn has_key(e: El) -> bool { e is Member && e->Member_0.hasValue_ && e->Member_0.data_.key_ is Some && *e->Member_0.data_.key_->Some_0 is String && (*e->Member_0.data_.key_->Some_0)->String_0.hasValue_ }
pub open spec fn key_of(e: El) -> Seq<u8> { (*e->Member_0.data_.key_->Some_0)->String_0.data_.value_ }
pub open spec fn keyed(p: Option<Box<El>>, k: Seq<u8>) -> bool { p is Some && has_key(*p->Some_0) && key_of(*p->Some_0) == k }
pub open spec fn obj_idx(s: Seq<Option<Box<El>>>, k: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { let r = obj_idx(s.drop_last(), k); if r < s.len() - 1 { r } else if keyed(s.last(), k) { s.len() - 1 } else { s.len() as int } } }
pub proof fn lem_obj_idx(s: Seq<Option<Box<El>>>, k: Seq<u8>) ensures 0 <= obj_idx(s, k) <= s.len(), obj_idx(s, k) < s.len() ==> keyed(s[obj_idx(s, k)], k), forall|j: int| 0 <= j < obj_idx(s, k) ==> !keyed(#[trigger] s[j], k) decreases s.len()
{ if s.len() > 0 { lem_obj_idx(s.drop_last(), k); assert forall|j: int| 0 <= j < obj_idx(s, k) implies !keyed(#[trigger] s[j], k) by { if j < s.len() - 1 { assert(s.drop_last()[j] == s[j]); } } if obj_idx(s.drop_last(), k) < s.len() - 1 { assert(s.drop_last()[obj_idx(s.drop_last(), k)] == s[obj_idx(s.drop_last(), k)]); } } }
pub open spec fn without_key(s: Seq<Option<Box<El>>>, k: Seq<u8>) -> Seq<Option<Box<El>>> { let i = obj_idx(s, k); if i < s.len() { s.remove(i) } else { s } }
'''
def trk(X): return f'refract::dsd::container_traits<refract::dsd::{X},'
def cont_contracts(X):
    q=f'refract::dsd::{X}::'; t='refract::dsd::container_traits::'
    on=lambda f: f.rec is not None and f.rec.key.startswith(trk(X))
    S='this_.elements_'; O='this__out.elements_'
    W=[f'{S}.len() < szmax()']
    l=[C(f'{X}_begin',q+'begin',['this_'],sig=lambda f: f.const,ret='@'+S,ensures=['ret == 0']),
     C(f'{X}_end',q+'end',['this_'],sig=lambda f: f.const,ret='@'+S,ensures=[f'ret == {S}.len()']),
     C(f'{X}_begin_m',q+'begin',['this_'],sig=lambda f: not f.const,ret='@'+S,ensures=['ret == 0','this__out == this_']),
     C(f'{X}_end_m',q+'end',['this_'],sig=lambda f: not f.const,ret='@'+S,ensures=[f'ret == {S}.len()','this__out == this_']),
     C(f'{X}_insert',q+'insert',['this_',f'it@{S}','el'],ret='@'+S,requires=W+['el is Some'],ensures=[f'{O} =~= ins({S}, it, el)','ret == it']),
     C(f'{X}_erase',q+'erase',['this_',f'b@{S}',f'e@{S}'],ret='@'+S,requires=['b <= e'],ensures=[f'{O} =~= cut({S}, b, e)','ret == b']),
     C(f'{X}_erase1',t+'erase',['this_',f'it@{S}'],sig=on,ret='@'+S,requires=[f'it < {S}.len()'],ensures=[f'{O} =~= cut({S}, it, it + 1)','ret == it']),
     C(f'{X}_size',t+'size',['this_'],sig=on,requires=[f'{S}.len() <= szmax()'],ensures=[f'ret == {S}.len()']),
     C(f'{X}_empty',t+'empty',['this_'],sig=on,requires=[f'{S}.len() <= szmax()'],ensures=[f'ret == ({S}.len() == 0)']),
     C(f'{X}_clear',t+'clear',['this_'],sig=on,ensures=[f'{O}.len() == 0']),
     C(f'{X}_push_back_base',t+'push_back',['this_','el'],sig=on,requires=W+['el is Some'],ensures=[f'{O} =~= {S}.push(el)'])]
    return l
def object_contracts():
    q='refract::dsd::Object::'; S='this_.elements_'; O='this__out.elements_'
    W=['wf_dObject(this_)',f'{S}.len() < szmax()']
    return [C('Object_find',q+'find',['this_','name'],size_req=False,ret='@'+S,requires=['wf_dObject(this_)'],ensures=[f'ret == obj_idx({S}, name)','this__out == this_'],hints=[f'lem_obj_idx({S}, name);']),
     C('Object_push_back',q+'push_back',['this_','el'],requires=W+['el is Some'],ensures=[f'{O} =~= (if has_key(*el->Some_0) {{ without_key({S}, key_of(*el->Some_0)) }} else {{ {S} }}).push(el)'],hints=[f'lem_obj_idx({S}, key_of(*el->Some_0));']),
     C('Object_addMember',q+'addMember',['this_','name','value'],ret='@'+S,requires=W,ensures=[f'{O}.len() > 0 && {O}.drop_last() =~= without_key({S}, name) && keyed({O}.last(), name) && (*{O}.last()->Some_0)->Member_0.data_.value_ == value',f'ret == {O}.len() - 1'],hints=[f'lem_obj_idx({S}, name);']),
    ]
# ---- copy / move / assign
DCONT={**{X:['elements_'] for X in SEQS+('Select',)},'Holder':['data_'],'Enum':['value_'],'Member':['key_','value_']}
def wfd(X,x): return f'wf_d{X}({x})' if X in SEQS or X=='Select' else ' && '.join(f'wf_ob({x}.{f})' for f in DCONT[X])
def move_contracts(X):
    q=f'refract::dsd::{X}::'
    isrec=lambda f,i=0: f.pt[i].k=='rec' and f.pt[i].key==f'refract::dsd::{X}' or f.pt[i].k=='ref' and f.pt[i].to.key==f'refract::dsd::{X}'
    return [C(f'move_{X}',q+X,['other:io'],sig=lambda f: f.move,ensures=['ret == other',f'other_out == {ddef(X)}'] if X not in('Holder','Enum','Member') else ['ret == other']+[f'other_out.{f} is None' for f in DCONT[X]]),
     C(f'assign_{X}',q+'operator=',['this_','rhs'],ret='=this_',sig=lambda f: not f.copy and not f.move or True,ensures=['this__out == rhs']),
     C(f'swap_{X}','refract::dsd::swap',['lhs','rhs'],sig=lambda f: f.pt[0].k=='ref' and f.pt[0].to.key==f'refract::dsd::{X}',ensures=['lhs_out == rhs','rhs_out == lhs']),
     C(f'default_{X}',q+X,[],sig=lambda f: len(f.pt)==0,ensures=[f'ret == {ddef(X)}'])]
def copy1_contracts(X):
    return C('copy_'+X,f'refract::dsd::{X}::{X}',['other'],sig=lambda f: f.copy,pure='other',requires=[wfd(X,'other')],dec=['other','0int'],size_req=False)
# ---- equality
def eqlib():
    o="pub open spec fn eqob(a: Option<Box<El>>, b: Option<Box<El>>) -> bool decreases a { match (a, b) { (None, None) => true, (Some(x), Some(y)) => eqel(*x, *y), _ => false } }\n"
    o+="pub open spec fn eqobo(a: Option<Box<E_Option>>, b: Option<Box<E_Option>>) -> bool decreases a { match (a, b) { (None, None) => true, (Some(x), Some(y)) => eq_Option(*x, *y), _ => false } }\n"
    o+="pub open spec fn eqie(a: IE, b: IE) -> bool decreases a { a.elements.len() == b.elements.len() && forall|i: int| 0 <= i < a.elements.len() ==> (#[trigger] a.elements[i]).0 == b.elements[i].0 && eqob(a.elements[i].1, b.elements[i].1) }\n"
    for X in SEQS: o+=f"pub open spec fn eq_d{X}(a: D_{X}, b: D_{X}) -> bool decreases a {{ a.elements_.len() == b.elements_.len() && forall|i: int| 0 <= i < a.elements_.len() ==> eqob(#[trigger] a.elements_[i], b.elements_[i]) }}\n"
    o+="pub open spec fn eq_dSelect(a: D_Select, b: D_Select) -> bool decreases a { a.elements_.len() == b.elements_.len() && forall|i: int| 0 <= i < a.elements_.len() ==> eqobo(#[trigger] a.elements_[i], b.elements_[i]) }\n"
    for X in KINDS:
        if X in DCONT and X not in SEQS and X!='Select': o+=f"pub open spec fn eq_d{X}(a: D_{X}, b: D_{X}) -> bool decreases a {{ "+' && '.join(f"eqob(a.{f}, b.{f})" for f in DCONT[X])+" }\n"
        if X not in DCONT: o+=f"pub open spec fn eq_d{X}(a: D_{X}, b: D_{X}) -> bool {{ a == b }}\n"
        o+=f"pub open spec fn eq_{X}(a: E_{X}, b: E_{X}) -> bool decreases a {{ a.hasValue_ == b.hasValue_ && eqie(a.attributes_, b.attributes_) && eqie(a.meta_, b.meta_) && (a.hasValue_ ==> eq_d{X}(a.data_, b.data_)) }}\n"
    o+="pub open spec fn eqel(a: El, b: El) -> bool decreases a { match (a, b) { "+' '.join(f"(El::{X}(x), El::{X}(y)) => eq_{X}(x, y)," for X in KINDS)+" _ => false } }\n"
    # lemmas: reflexive, symmetric, transitive
    def lem(nm,ps,pre,post,rec):
        """rec(fn,args): lemma call text for a component"""
        r=''
        req=lambda fn: pre(fn)
        for fn,dt,comps in EQFNS:
            pl=', '.join(f"{p}: {dt}" for p in ps)
            body=''
            for kind,args in comps:
                if kind=='seq':
                    cf,fld,el=args
                    acc=lambda p: f"{p}.{fld}[i]{el}"
                    ens=post(cf,[acc(p) for p in ps])
                    body+=f"assert forall|i: int| 0 <= i < a.{fld}.len() implies "+ens+" by { "+' '.join(f"assert({pre1(cf,acc)});" for pre1 in ())+f"{nm}_{cf}({', '.join(acc(p) for p in ps)}); }} "
                elif kind=='call':
                    cf,fld,guard=args
                    call=f"{nm}_{cf}({', '.join(p+fld for p in ps)});"
                    body+=(f"if {guard} {{ {call} }} " if guard else call+' ')
                elif kind=='opt':
                    cf,un=args
                    g=' && '.join(f"{p} is Some" for p in ps)
                    body+=f"if {g} {{ {nm}_{cf}({', '.join('*'+p+'->Some_0' for p in ps)}); }} "
                elif kind=='kinds':
                    for X in KINDS:
                        g=' && '.join(f"{p} is {X}" for p in ps)
                        body+=f"if {g} {{ {nm}_eq_{X}({', '.join(f'{p}->{X}_0' for p in ps)}); }} "
            rq=pre(fn,ps)
            r+=f"pub proof fn {nm}_{fn}({pl}) "+(f"requires {rq} " if rq else '')+f"ensures {post(fn,ps)} decreases a {{ {body}}}\n"
        return r
    o+=lem('refl',['a'],lambda fn,ps: '',lambda fn,ps: f"{fn}({ps[0]}, {ps[0]})",None)
    # symmetric / transitive: stated with implication, so that components need no precondition
    o+=lem('sym',['a','b'],lambda fn,ps: '',lambda fn,ps: f"({fn}({ps[0]}, {ps[1]}) ==> {fn}({ps[1]}, {ps[0]}))",None)
    o+=lem('trans',['a','b','c'],lambda fn,ps: '',lambda fn,ps: f"({fn}({ps[0]}, {ps[1]}) && {fn}({ps[1]}, {ps[2]}) ==> {fn}({ps[0]}, {ps[2]}))",None)
    return o
EQFNS=[('eqob','Option<Box<El>>',[('opt',('eqel',0))]),('eqobo','Option<Box<E_Option>>',[('opt',('eq_Option',0))]),('eqie','IE',[('seq',('eqob','elements','.1'))])]
for _X in SEQS: EQFNS.append((f'eq_d{_X}',f'D_{_X}',[('seq',('eqob','elements_',''))]))
EQFNS.append(('eq_dSelect','D_Select',[('seq',('eqobo','elements_',''))]))
for _X in KINDS:
    if _X in DCONT and _X not in SEQS and _X!='Select': EQFNS.append((f'eq_d{_X}',f'D_{_X}',[('call',('eqob','.'+f,'')) for f in DCONT[_X]]))
    elif _X not in DCONT: EQFNS.append((f'eq_d{_X}',f'D_{_X}',[]))
    EQFNS.append((f'eq_{_X}',f'E_{_X}',[('call',('eqie','.attributes_','')),('call',('eqie','.meta_','')),('call',(f'eq_d{_X}','.data_',''))]))
EQFNS.append(('eqel','El',[('kinds',None)]))
EQLIB=eqlib()
def eq_contracts():
    q='refract::operator=='; nq='refract::operator!='
    is_=lambda i,key: (lambda f: f.pt[i].k=='ref' and f.pt[i].to.k=='rec' and f.pt[i].to.key==key)
    l=[C('eq_el',q,['lhs','rhs'],sig=is_(0,'refract::IElement'),pure='eqel(lhs, rhs)',split=('lhs',KINDS),requires=['wf(lhs)','wf(rhs)'],dec=['lhs','2int'],size_req=False),
       C('eq_el_Option',q,['lhs','rhs'],sig=is_(0,'refract::IElement'),kinds=dict(lhs='Option',rhs='Option'),pure='eq_Option(lhs, rhs)',requires=['wf_Option(lhs)','wf_Option(rhs)'],dec=['lhs','2int'],size_req=False),
       C('ne_el',nq,['lhs','rhs'],sig=is_(0,'refract::IElement'),pure='!eqel(lhs, rhs)',requires=['wf(lhs)','wf(rhs)'],dec=['lhs','3int'],size_req=False),
       C('eq_ie',q,['lhs','rhs'],sig=is_(0,'refract::InfoElements'),pure='eqie(lhs, rhs)',requires=['wf_ie(lhs)','wf_ie(rhs)'],dec=['lhs','0int'],size_req=False),
       C('ne_ie',nq,['lhs','rhs'],sig=is_(0,'refract::InfoElements'),pure='!eqie(lhs, rhs)',requires=['wf_ie(lhs)','wf_ie(rhs)'],dec=['lhs','1int'],size_req=False)]
    for X in KINDS:
        rq=[wfd(X,'lhs'),wfd(X,'rhs')] if X in DCONT else []
        l.append(C(f'eq_{X}','refract::dsd::operator==',['lhs','rhs'],sig=lambda f,X=X: all(is_(i,'refract::dsd::'+X)(f) for i in(0,1)),pure=f'eq_d{X}(lhs, rhs)',hints=[f'refl_eqob(lhs.{f});' for f in DCONT[X]] if X in('Holder','Enum','Member') else [],requires=rq,dec=['lhs','0int'],size_req=False))
        l.append(C(f'ne_{X}','refract::dsd::operator!=',['lhs','rhs'],sig=lambda f,X=X: all(is_(i,'refract::dsd::'+X)(f) for i in(0,1)),pure=f'!eq_d{X}(lhs, rhs)',requires=rq,dec=['lhs','1int'],size_req=False,ifpresent=True))
    return l
def elc_contracts(X,names=('of','set')):
    """value constructor and setter of an element kind"""
    from .poly import ekey
    on=lambda f: f.rec.key==ekey(X)
    w=[wfd(X,'data')] if X in DCONT else []
    l=[]
    if 'of' in names: l.append(C(f'el_of_{X}','refract::Element::Element',['data'],sig=lambda f: on(f) and len(f.pt)==1 and not f.copy and not f.move,requires=w,ensures=[f'ret == E_{X} {{ meta_: empty_ie(), attributes_: empty_ie(), hasValue_: true, data_: data, name_: {lit(NAMES[X])} }}'],size_req=False))
    if 'set' in names: l.append(C(f'el_set_{X}','refract::Element::set',['this_','data'],sig=on,requires=w,ensures=[f'this__out == (E_{X} {{ hasValue_: true, data_: data, ..this_ }})'],size_req=False))
    return l
# the lookup part of the collection library (no erase)
IEFIND='\n'.join(l for l in IELIB[IELIB.index('pub open spec fn ie_idx'):].split('\n'))
# ---- reserved base names (property C11) and queries on element trees
RES='''
pub open spec fn is_base_name(w: Seq<u8>) -> bool { '''+' || '.join('w =~= '+lit(n) for n in 'array boolean enum extend generic member null number object option ref select string'.split())+''' }
'''
def res_contracts():
    return [C('isReservedC','refract::isReserved',['w@s:cstr'],sig=lambda f: f.pt[0].k=='ptr',ensures=['ret == is_base_name(cz(s.skip(w)))'],size_req=False,optional=True),
     C('isReserved','refract::isReserved',['w'],sig=lambda f: f.pt[0].k=='ref',ensures=['ret == is_base_name(w)'],size_req=False,hints=['assert(w.skip(0) =~= w); cz_len(w); if cz(w).len() == w.len() { assert(cz(w) =~= w); cz_id(w); }'])]
def byk(ty,f): return f"pub open spec fn {f[0]}(e: El) -> {ty} {{ match e {{ "+', '.join(f'El::{X}(x) => x.{f[1]}' for X in KINDS)+" } }\n"
ACC=byk('IE',('attrs','attributes_'))+byk('IE',('meta','meta_'))+byk('bool',('hasval','hasValue_'))+byk('Seq<u8>',('ename','name_'))
IEAT='''
pub open spec fn ie_at(m: IE, k: Seq<u8>) -> Option<Box<El>> { let i = ie_idx(m.elements, k); if 0 <= i < m.elements.len() { m.elements[i].1 } else { None } }
pub proof fn sub_at(m: IE, k: Seq<u8>) requires wf_ie(m) ensures ({ let i = ie_idx(m.elements, k); 0 <= i < m.elements.len() ==> m.elements[i].1 is Some && wf(*m.elements[i].1->Some_0) && decreases_to!(m => *m.elements[i].1->Some_0) })
{ lem_idx(m.elements, k); let i = ie_idx(m.elements, k); if 0 <= i < m.elements.len() { assert(wf_ob(m.elements[i].1)); assert(decreases_to!(m => m.elements)); assert(decreases_to!(m.elements => m.elements[i])); assert(decreases_to!(m.elements[i] => m.elements[i].1)); } }
'''
def sub_seq(X):
    o='obo' if X=='Select' else 'ob'; w='wf_Option' if X=='Select' else 'wf'
    return f'''pub proof fn sub_{X}(d: D_{X}, i: int) requires wf_d{X}(d), 0 <= i < d.elements_.len() ensures d.elements_[i] is Some && {w}(*d.elements_[i]->Some_0) && decreases_to!(d => *d.elements_[i]->Some_0)
{{ assert(wf_{o}(d.elements_[i])); assert(decreases_to!(d => d.elements_)); assert(decreases_to!(d.elements_ => d.elements_[i])); }}
'''
SUBS=''.join(sub_seq(X) for X in SEQS+('Select',))
