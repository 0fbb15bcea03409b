"""C25: appending an info element"""
from vx.engine import Contract as C
from vx import poly, elib
ID='C25'
TUS=['tus/refract_append.cc']
UNIT=poly.unit; ENG=poly.PEng
LIB=elib.WF+elib.CLONE+elib.TQ+elib.IELIB+'''
pub open spec fn str_el(v: D_String) -> Option<Box<El>> { Some(Box::new(El::String(E_String { meta_: empty_ie(), attributes_: empty_ie(), hasValue_: true, data_: v, name_: STR }))) }
pub open spec fn is_val(p: Option<Box<El>>, v: D_String) -> bool { p is Some && *p->Some_0 is String && (*p->Some_0)->String_0.data_ == v }
pub open spec fn has_val(s: Seq<Option<Box<El>>>, v: D_String) -> bool { exists|i: int| 0 <= i < s.len() && is_val(#[trigger] s[i], v) }
// the array afterwards
pub open spec fn app_arr(a: E_Array, v: D_String) -> E_Array {
  if !a.hasValue_ { E_Array { hasValue_: true, data_: D_Array { elements_: seq![str_el(v)] }, ..a } }
  else if has_val(a.data_.elements_, v) { a } else { E_Array { data_: D_Array { elements_: a.data_.elements_.push(str_el(v)) }, ..a } } }
pub open spec fn new_arr(v: D_String) -> El { El::Array(E_Array { meta_: empty_ie(), attributes_: empty_ie(), hasValue_: true, data_: D_Array { elements_: seq![str_el(v)] }, name_: ARR }) }
pub open spec fn app_info(s: Seq<ENT>, k: Seq<u8>, v: D_String) -> Seq<ENT> { let i = ie_idx(s, k);
  if i >= s.len() { s.push((k, Some(Box::new(new_arr(v))))) } else { s.update(i, (s[i].0, Some(Box::new(El::Array(app_arr((*s[i].1->Some_0)->Array_0, v)))))) } }
// the property: the value is there afterwards, once, and nothing else changed
pub proof fn appended(s: Seq<ENT>, k: Seq<u8>, v: D_String) requires ie_idx(s, k) < s.len() ==> s[ie_idx(s, k)].1 is Some && *s[ie_idx(s, k)].1->Some_0 is Array
  ensures ({ let t = app_info(s, k, v); let i = ie_idx(s, k); &&& i < t.len() && t[i].0 == k && t[i].1 is Some && *t[i].1->Some_0 is Array
    &&& ({ let a = (*t[i].1->Some_0)->Array_0; a.hasValue_ && has_val(a.data_.elements_, v) })
    &&& forall|j: int| 0 <= j < s.len() && j != i ==> t[j] == s[j]
    &&& t.len() <= s.len() + 1
    &&& app_info(t, k, v) == t })
{ lem_idx(s, k); let t = app_info(s, k, v); let i = ie_idx(s, k); assert(t[i].0 == k); let a = (*t[i].1->Some_0)->Array_0; 
  if i < s.len() { let b = (*s[i].1->Some_0)->Array_0; if !b.hasValue_ { assert(is_val(a.data_.elements_[0], v)); } else if !has_val(b.data_.elements_, v) { assert(is_val(a.data_.elements_[b.data_.elements_.len() as int], v)); } } else { assert(is_val(a.data_.elements_[0], v)); }
  lem_idx(t, k); assert(ie_idx(t, k) == i) by { if ie_idx(t, k) < i { assert(t[ie_idx(t, k)] == s[ie_idx(t, k)]); } }
  assert(app_info(t, k, v) =~= t); }
'''.replace('ENT',elib.ENT).replace('STR',elib.lit('string')).replace('ARR',elib.lit('array'))
LIB+='''
pub proof fn wf_str(v: D_String) ensures wf_ob(str_el(v)), wf_dArray(D_Array { elements_: seq![str_el(v)] }), wf_dArray(D_Array { elements_: Seq::empty().push(str_el(v)) }), seq![str_el(v)] =~= Seq::empty().push(str_el(v))
{ assert(wf(*str_el(v)->Some_0)); assert(wf_ob(str_el(v))); let a = D_Array { elements_: seq![str_el(v)] }; assert forall|i: int| 0 <= i < a.elements_.len() implies (#[trigger] a.elements_[i]) is Some && wf_ob(a.elements_[i]) by { assert(a.elements_[i] == str_el(v)); } assert(seq![str_el(v)] =~= Seq::empty().push(str_el(v))); }
'''
A='(*ie.elements[ie_idx(ie.elements, key)].1->Some_0)'
CONTRACTS=elib.clone_contracts()+elib.ie_contracts()+elib.tq_contracts()+elib.as_contracts('Array')+elib.as_contracts('String')+elib.elc_contracts('Array')+elib.elc_contracts('String')+elib.move_contracts('Array')+[
 C('append','refract::AppendInfoElement',['ie','key','value:io'],requires=['wf_ie(ie)','ie.elements.len() < szmax()',f'ie_idx(ie.elements, key) < ie.elements.len() ==> ie.elements[ie_idx(ie.elements, key)].1 is Some && {A} is Array && {A}->Array_0.data_.elements_.len() < szmax()'],
   ensures=['ie_out.elements =~= app_info(ie.elements, key, value)'],hints=['lem_idx(ie.elements, key);','wf_str(value);'])]
