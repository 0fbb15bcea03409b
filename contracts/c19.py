"""C19, C20: the type registry"""
from vx.engine import Contract as C
from vx import poly, elib, stl
ID='C19'
TUS=['tus/refract_registry.cc']
UNIT=poly.unit; ENG=poly.PEng
ENT='(Seq<u8>, Option<Box<El>>)'
BASES=[('boolean','Boolean'),('number','Number'),('string','String'),('array','Array'),('object','Object'),('enum','Enum'),('null','Null')]
def empty_el(X): return f"El::{X}(E_{X} {{ meta_: empty_ie(), attributes_: empty_ie(), hasValue_: false, data_: {elib.ddef(X)}, name_: {elib.lit(elib.NAMES[X])} }})"
REG='''
pub type Types = Seq<ENT>;
// what every registry holds: distinct names, no null entry
pub open spec fn wf_reg(t: Types) -> bool { t.len() < szmax() && (forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).1 is Some && wf_ob(t[i].1)) && (forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).0 != (#[trigger] t[j]).0) }
pub open spec fn known(t: Types, n: Seq<u8>) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == n }
// the element registered under a name
pub open spec fn reg(t: Types, n: Seq<u8>) -> Option<El> { let i = ie_idx(t, n); if 0 <= i < t.len() { Some(*t[i].1->Some_0) } else { None } }
'''.replace('ENT',ENT)
LIB=elib.WF+elib.CLONE+elib.TQ+elib.IEFIND+elib.ACC+elib.IEAT+elib.RES+REG
CONTRACTS=elib.ie_contracts()[:9]+elib.tq_contracts()+elib.as_contracts('String')+elib.res_contracts()
R='refract::Registry::'
CONTRACTS+=[C('reg_find',R+'find',['this_','name'],requires=['wf_reg(this_.types_)'],ensures=['ret_null == (reg(this_.types_, name) is None)','!ret_null ==> ret == reg(this_.types_, name)->Some_0'],size_req=False,hints=['lem_idx(this_.types_, name);'])]
LIB+='''
pub open spec fn id_of(e: El) -> Option<Box<El>> { ie_at(meta(e), ID) }
pub open spec fn bad_id(e: El) -> bool { let p = id_of(e); p is None || !(*p->Some_0 is String) || is_base_name((*p->Some_0)->String_0.data_.value_) }
pub open spec fn id_text(e: El) -> Seq<u8> { (*id_of(e)->Some_0)->String_0.data_.value_ }
// b is a with name n bound to v (None: unbound), every other name as before
pub open spec fn rebound(a: Types, b: Types, n: Seq<u8>, v: Option<El>) -> bool { wf_reg(b) && reg(b, n) == v && forall|m: Seq<u8>| m != n ==> #[trigger] reg(b, m) == reg(a, m) }
// looking a name up finds the only entry of that name
pub proof fn lem_reg(t: Types, n: Seq<u8>, i: int) requires wf_reg(t), 0 <= i < t.len(), t[i].0 == n ensures ie_idx(t, n) == i { lem_idx(t, n); let r = ie_idx(t, n); if r < i { assert(t[r].0 != t[i].0); } if r > i { assert(t[i].0 != n); } }
pub proof fn lem_unreg(t: Types, n: Seq<u8>) requires forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0 != n ensures reg(t, n) is None { lem_idx(t, n); }
pub proof fn lem_put(t: Types, p: int, n: Seq<u8>, v: Option<Box<El>>) requires wf_reg(t), t.len() + 1 < szmax(), 0 <= p <= t.len(), reg(t, n) is None, v is Some, wf_ob(v) ensures rebound(t, t.insert(p, (n, v)), n, Some(*v->Some_0))
{ let s = t.insert(p, (n, v)); lem_idx(t, n);
  assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0 != n by { if t[i].0 == n { lem_reg(t, n, i); } }
  assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) == (if i < p { t[i] } else if i == p { (n, v) } else { t[i - 1] }) by { }
  assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1 is Some && wf_ob(s[i].1) by { if i < p { assert(t[i].1 is Some); } if i > p { assert(t[i - 1].1 is Some); } }
  assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { let a = if i < p { i } else { i - 1 }; let b = if j < p { j } else { j - 1 }; if i != p && j != p { assert(t[a].0 != t[b].0); } else if i == p { assert(t[b].0 != n); } else { assert(t[a].0 != n); } }
  assert(wf_reg(s)); lem_reg(s, n, p);
  assert forall|m: Seq<u8>| m != n implies #[trigger] reg(s, m) == reg(t, m) by { lem_idx(t, m); lem_idx(s, m); let i = ie_idx(t, m); if i < t.len() { let k = if i < p { i } else { i + 1 }; assert(s[k] == t[i]); lem_reg(s, m, k); } else { let k = ie_idx(s, m); if k < s.len() { let j = if k < p { k } else { k - 1 }; assert(t[j] == s[k]); } } } }
pub proof fn lem_drop(t: Types, n: Seq<u8>, p: int) requires wf_reg(t), 0 <= p < t.len(), t[p].0 == n ensures rebound(t, t.remove(p), n, None)
{ let s = t.remove(p);
  assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) == (if i < p { t[i] } else { t[i + 1] }) by { }
  assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1 is Some && wf_ob(s[i].1) by { if i < p { assert(t[i].1 is Some); } else { assert(t[i + 1].1 is Some); } }
  assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { let a = if i < p { i } else { i + 1 }; let b = if j < p { j } else { j + 1 }; assert(t[a].0 != t[b].0); }
  assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 != n by { if i < p { assert(t[i].0 != t[p].0); } else { assert(t[p].0 != t[i + 1].0); } }
  lem_unreg(s, n);
  assert forall|m: Seq<u8>| m != n implies #[trigger] reg(s, m) == reg(t, m) by { lem_idx(t, m); lem_idx(s, m); let i = ie_idx(t, m); if i < t.len() { let k = if i < p { i } else { i - 1 }; assert(s[k] == t[i]); lem_reg(s, m, k); } else { let k = ie_idx(s, m); if k < s.len() { let j = if k < p { k } else { k + 1 }; assert(t[j] == s[k]); } } } }
'''.replace('ID',elib.lit('id'))
LIB+='''
pub proof fn lem_emp(t: Types, n: Seq<u8>, v: Option<Box<El>>) requires wf_reg(t), t.len() + 1 < szmax(), reg(t, n) is None, v is Some, wf_ob(v) ensures rebound(t, map_emp_(t, n, v), n, Some(*v->Some_0)), map_emp_(t, n, v).len() == t.len() + 1
{ reveal(map_emp_); lem_map_idx(t, n); lem_idx(t, n); let i = map_idx_(t, n); if i < t.len() { lem_reg(t, n, i); } lem_put(t, map_pos_(t, n), n, v); }
'''
def base_map_lem():
    # the seven insertions in the source order and in any other
    r='pub proof fn lem_names() ensures '+', '.join(f'{elib.lit(a)} != {elib.lit(b)}' for i,(a,_) in enumerate(BASES) for b,_ in BASES[i+1:])+' {'
    for i,(a,_) in enumerate(BASES):
        for b,_ in BASES[i+1:]:
            if len(a)==len(b):
                k=[x!=y for x,y in zip(a,b)].index(True); r+=f' assert({elib.lit(a)}[{k}] != {elib.lit(b)}[{k}]);'
            else: r+=f' assert({elib.lit(a)}.len() != {elib.lit(b)}.len());'
    return r+' }\n'
LIB+=base_map_lem()
LIB+='''
pub proof fn lem_none(n: Seq<u8>) ensures reg(Seq::empty(), n) is None { lem_idx(Seq::<ENT>::empty(), n); }
'''.replace('ENT',ENT)
LIB+='''
pub proof fn lem_emp_(t: Types, n: Seq<u8>, v: Option<Box<El>>) requires wf_reg_(t), t.len() < 100, reg_(t, n) is None, v is Some, wf_ob(v) ensures ({ let s = map_emp_(t, n, v); wf_reg_(s) && s.len() == t.len() + 1 && reg_(s, n) == Some(*v->Some_0) && forall|m: Seq<u8>| m != n ==> #[trigger] reg_(s, m) == reg_(t, m) }) { reveal(wf_reg_); reveal(reg_); lem_emp(t, n, v); let s = map_emp_(t, n, v); assert forall|m: Seq<u8>| m != n implies #[trigger] reg_(s, m) == reg_(t, m) by { assert(reg(s, m) == reg(t, m)); } }
pub proof fn lem_none_() ensures wf_reg_(Seq::empty()), forall|n: Seq<u8>| #[trigger] reg_(Seq::empty(), n) is None { reveal(wf_reg_); reveal(reg_); assert forall|n: Seq<u8>| #[trigger] reg_(Seq::empty(), n) is None by { lem_none(n); } }
// what base_types says of the registry
pub proof fn lem_base_types(t: Types) requires base_types(t) ensures wf_reg(t), forall|n: Seq<u8>| (#[trigger] reg(t, n) is Some) == base7(n) { reveal(wf_reg_); reveal(reg_); assert forall|n: Seq<u8>| (#[trigger] reg(t, n) is Some) == base7(n) by { assert(reg_(t, n) == reg(t, n)); } }
'''
LIB+='pub proof fn lem_empties() ensures '+', '.join(f'wf({empty_el(X)})' for _,X in BASES)+' { assert(wf_ie(empty_ie())); '+' '.join(f'assert(wf({empty_el(X)}));' for _,X in BASES)+' }\n'
BH=['lem_names();','lem_empties();','lem_none_();','assert forall|t: Types, n: Seq<u8>, v: Option<Box<El>>| wf_reg_(t) && t.len() < 100 && reg_(t, n) is None && v is Some && wf_ob(v) implies ({ let s = #[trigger] map_emp_(t, n, v); wf_reg_(s) && s.len() == t.len() + 1 && reg_(s, n) == Some(*v->Some_0) && forall|m: Seq<u8>| m != n ==> #[trigger] reg_(s, m) == reg_(t, m) }) by { lem_emp_(t, n, v); }']
T='this_.types_'; O='this__out.types_'
LIB+='#[verifier::opaque] pub open spec fn reg_(t: Types, n: Seq<u8>) -> Option<El> { reg(t, n) }\n#[verifier::opaque] pub open spec fn wf_reg_(t: Types) -> bool { wf_reg(t) }\npub open spec fn base_types(t: Types) -> bool { wf_reg_(t) && '+' && '.join(f"reg_(t, {elib.lit(n)}) == Some({empty_el(X)})" for n,X in BASES)+' && forall|n: Seq<u8>| #[trigger] reg_(t, n) is Some ==> base7(n) }\npub open spec fn base7(n: Seq<u8>) -> bool { '+' || '.join(f'n == {elib.lit(n)}' for n,_ in BASES)+' }\n'
CONTRACTS+=[C('reg_add',R+'add',['this_','element'],throws=True,requires=[f'wf_reg({T})',f'{T}.len() + 1 < szmax()','element is Some','wf(*element->Some_0)'],
   ensures=['exc == bad_id(*element->Some_0)',f'exc ==> {O} == {T}',f'!exc ==> ret == (reg({T}, id_text(*element->Some_0)) is None)',f'!exc && !ret ==> {O} == {T}',f'!exc && ret ==> rebound({T}, {O}, id_text(*element->Some_0), Some(*element->Some_0))'],
   hints=[f'lem_idx(meta(*element->Some_0).elements, {elib.lit("id")});',f'if reg({T}, id_text(*element->Some_0)) is None {{ lem_emp({T}, id_text(*element->Some_0), element); }}',f'lem_idx({T}, id_text(*element->Some_0));',f'assert forall|p: int| 0 <= p <= {T}.len() && reg({T}, id_text(*element->Some_0)) is None implies rebound({T}, #[trigger] {T}.insert(p, (id_text(*element->Some_0), element)), id_text(*element->Some_0), Some(*element->Some_0)) by {{ lem_put({T}, p, id_text(*element->Some_0), element); }}',f'assert forall|p: int| 0 <= p <= {T}.len() implies #[trigger] {T}.insert(p, (id_text(*element->Some_0), None)).update(p, (id_text(*element->Some_0), element)) == {T}.insert(p, (id_text(*element->Some_0), element)) by {{ assert({T}.insert(p, (id_text(*element->Some_0), None)).update(p, (id_text(*element->Some_0), element)) =~= {T}.insert(p, (id_text(*element->Some_0), element))); }}'],size_req=False),
 C('reg_remove',R+'remove',['this_','name'],requires=[f'wf_reg({T})'],ensures=[f'ret == (reg({T}, name) is Some)',f'rebound({T}, {O}, name, None)'],size_req=False,hints=[f'lem_idx({T}, name);',f'assert forall|p: int| 0 <= p < {T}.len() && {T}[p].0 == name implies rebound({T}, #[trigger] {T}.remove(p), name, None) by {{ lem_drop({T}, name, p); }}']),
 C('reg_clear',R+'clear',['this_'],ensures=[f'{O}.len() == 0']),
 C('base_map','(anonymous namespace)::baseTypeMap',[],ensures=['base_types(ret)'],hints=BH,size_req=False,optional=True),
 C('reg_init',R+'Registry',[],sig=lambda f: len(f.pt)==0,ensures=['base_types(ret.types_)'],hints=BH,size_req=False),
]
