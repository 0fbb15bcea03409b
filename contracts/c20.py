"""C20: the root ancestor of a named type"""
from vx.engine import Contract as C
from vx import poly, elib, stl
from contracts import c19
ID='C20'
TUS=c19.TUS
UNIT=poly.unit; ENG=poly.PEng
LIB=c19.LIB+'''
// the name reached from n by following k parent names
pub open spec fn anc(t: Types, n: Seq<u8>, k: int) -> Seq<u8> decreases k { if k <= 0 { n } else { match reg(t, anc(t, n, k - 1)) { Some(e) => ename(e), None => seq![] } } }
// the walk from n reaches its k-th ancestor: every name on the way is registered, non-reserved below it and met once
pub open spec fn walk(t: Types, n: Seq<u8>, k: int) -> bool { 0 <= k && (forall|i: int| 0 <= i <= k ==> reg(t, #[trigger] anc(t, n, i)) is Some) && (forall|i: int| 0 < i <= k ==> !is_base_name(#[trigger] anc(t, n, i))) && (forall|i: int, j: int| 0 <= i < j <= k ==> #[trigger] anc(t, n, i) != #[trigger] anc(t, n, j)) }
// the walk ends there: the next name is reserved, unknown or already met
pub open spec fn ends(t: Types, n: Seq<u8>, k: int) -> bool { let m = anc(t, n, k + 1); is_base_name(m) || reg(t, m) is None || exists|i: int| 0 <= i <= k && #[trigger] anc(t, n, i) == m }
pub open spec fn root_at(t: Types, n: Seq<u8>, k: int, e: El) -> bool { walk(t, n, k) && ends(t, n, k) && reg(t, anc(t, n, k)) == Some(e) }
pub open spec fn all_reg(t: Types, v: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < v.len() ==> reg(t, #[trigger] v[i]) is Some }
pub open spec fn distinct(v: Seq<Seq<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] != #[trigger] v[j] }
// distinct registered names are no more than the registered types
pub proof fn lem_pigeon(t: Types, v: Seq<Seq<u8>>) requires wf_reg(t), all_reg(t, v), distinct(v) ensures v.len() <= t.len() decreases t.len()
{ if v.len() > 0 { let n = v.last(); let w = v.drop_last(); lem_idx(t, n); let p = ie_idx(t, n); assert(reg(t, v[v.len() - 1]) is Some); assert(t[p].0 == n); lem_drop(t, n, p); let s = t.remove(p);
  assert forall|i: int| 0 <= i < w.len() implies reg(s, #[trigger] w[i]) is Some by { assert(w[i] == v[i]); assert(v[i] != v[v.len() - 1]); assert(reg(s, w[i]) == reg(t, v[i])); }
  assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] w[i] != #[trigger] w[j] by { assert(w[i] == v[i] && w[j] == v[j]); }
  lem_pigeon(s, w); } }
// where the walk ends is determined
pub proof fn lem_root_unique(t: Types, n: Seq<u8>, k: int, e: El, l: int, f: El) requires root_at(t, n, k, e), root_at(t, n, l, f) ensures k == l, e == f
{ if k < l { lem_not_past(t, n, k, l); } if l < k { lem_not_past(t, n, l, k); } }
pub proof fn lem_not_past(t: Types, n: Seq<u8>, k: int, l: int) requires ends(t, n, k), walk(t, n, l), 0 <= k < l ensures false { let m = anc(t, n, k + 1); assert(reg(t, m) is Some); assert(!is_base_name(m)); let i = choose|i: int| 0 <= i <= k && #[trigger] anc(t, n, i) == m; assert(anc(t, n, i) != anc(t, n, k + 1)); }
// every registered name has a root ancestor
pub proof fn lem_wf_reg_find(t: Types, n: Seq<u8>) requires wf_reg(t), reg(t, n) is Some ensures wf(reg(t, n)->Some_0) { lem_idx(t, n); }
'''
T='registry.types_'
V='{v:Seq<Seq<u8>>}'
INV=[f'{V}.len() >= 1',f'forall|i: int| 0 <= i < {V}.len() ==> #[trigger] {V}[i] == anc({T}, name, i)',f'distinct({V})',f'{{n:bool}} == (reg({T}, name) is None)',f'!{{n:bool}} ==> all_reg({T}, {V}) && reg({T}, {V}.last()) == Some({{p:El}})',f'forall|i: int| 0 < i < {V}.len() ==> !is_base_name(#[trigger] {V}[i])']
LH=[f'if !{{n:bool}} && inv_root({T}, name, {V}, {{p:El}}) {{ lem_pigeon({T}, {V}); lem_walk({T}, name, {V}, {{p:El}}); }}']
LIB+='''
pub open spec fn inv_root(t: Types, n: Seq<u8>, v: Seq<Seq<u8>>, e: El) -> bool { wf_reg(t) && v.len() >= 1 && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == anc(t, n, i)) && distinct(v) && all_reg(t, v) && reg(t, v.last()) == Some(e) && forall|i: int| 0 < i < v.len() ==> !is_base_name(#[trigger] v[i]) }
pub proof fn lem_walk(t: Types, n: Seq<u8>, v: Seq<Seq<u8>>, e: El) requires inv_root(t, n, v, e) ensures ({ let k = v.len() - 1; walk(t, n, k) && reg(t, anc(t, n, k)) == Some(e) && anc(t, n, k + 1) == ename(e) && wf(e) && ((is_base_name(ename(e)) || reg(t, ename(e)) is None || v.contains(ename(e))) ==> root_at(t, n, k, e)) })
{ let k = v.len() - 1; assert(v[k] == anc(t, n, k)); lem_wf_reg_find(t, v[k]);
  assert forall|i: int| 0 <= i <= k implies reg(t, #[trigger] anc(t, n, i)) is Some by { assert(v[i] == anc(t, n, i)); }
  assert forall|i: int| 0 < i <= k implies !is_base_name(#[trigger] anc(t, n, i)) by { assert(v[i] == anc(t, n, i)); }
  assert forall|i: int, j: int| 0 <= i < j <= k implies #[trigger] anc(t, n, i) != #[trigger] anc(t, n, j) by { assert(v[i] == anc(t, n, i)); assert(v[j] == anc(t, n, j)); }
  if v.contains(ename(e)) { let i = choose|i: int| 0 <= i < v.len() && v[i] == ename(e); assert(anc(t, n, i) == ename(e)); } }
'''
CONTRACTS=[c for c in c19.CONTRACTS if c.name in('isReserved','isReservedC','reg_find')]+[
 C('root_anc','refract::FindRootAncestor',['name','registry'],requires=[f'wf_reg({T})'],
  ensures=[f'ret_null == (reg({T}, name) is None)',f'!ret_null ==> exists|k: int| root_at({T}, name, k, ret)'],size_req=False,
  invs=INV,loophints=LH,measure=[f'{T}.len() - {V}.len() + 1']),
]
