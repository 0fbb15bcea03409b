"""C23: lookup helpers"""
from vx.engine import Contract as C
from vx import poly, elib
ID='C23'
TUS=['tus/refract_lookup.cc']
UNIT=poly.unit; ENG=poly.PEng
OB='Option<Box<El>>'
LIB=elib.WF+elib.CLONE+elib.TQ+elib.IEFIND+elib.CONT+'''
// the element stored under a key of a collection
pub open spec fn ie_at(m: IE, k: Seq<u8>) -> OB { let i = ie_idx(m.elements, k); if 0 <= i < m.elements.len() { m.elements[i].1 } else { None } }
pub open spec fn kv(s: Seq<u8>) -> Seq<u8> { s }
pub open spec fn is_str_of(p: OB, v: Seq<u8>) -> bool { p is Some && *p->Some_0 is String && (*p->Some_0)->String_0.data_.value_ == v }
pub open spec fn has_str(s: Seq<OB>, v: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && is_str_of(#[trigger] s[i], v) }
pub open spec fn has_ta(a: IE, v: Seq<u8>) -> bool { let p = ie_at(a, TA); p is Some && *p->Some_0 is Array && has_str((*p->Some_0)->Array_0.data_.elements_, v) }
pub open spec fn ta_seq(a: IE) -> Seq<OB> { (*ie_at(a, TA)->Some_0)->Array_0.data_.elements_ }
pub open spec fn is_var(a: IE) -> bool { let p = ie_at(a, VAR); p is Some && *p->Some_0 is Boolean && (*p->Some_0)->Boolean_0.data_.data_ }
pub open spec fn first_sample(a: IE) -> OB { let p = ie_at(a, SAMPLES); if p is Some && *p->Some_0 is Array && (*p->Some_0)->Array_0.data_.elements_.len() > 0 { (*p->Some_0)->Array_0.data_.elements_[0] } else { None } }
// the effective value of a (non-enumeration) element
pub open spec fn kind_ob(p: OB, k: u32) -> bool { p is Some && tq_code(*p->Some_0) == k }
pub open spec fn effective(e: El) -> OB { let a = attrs(e); let s = first_sample(a); let d = ie_at(a, DEFAULT);
  if hasval(e) { Some(Box::new(e)) } else if kind_ob(s, tq_code(e)) { s } else if kind_ob(d, tq_code(e)) { d } else if has_ta(a, NULLABLE) { None } else { Some(Box::new(e)) } }
pub open spec fn attrs(e: El) -> IE { match e { ATTRS } }
pub open spec fn meta(e: El) -> IE { match e { METAS } }
pub open spec fn hasval(e: El) -> bool { match e { HASVS } }
'''.replace('ATTRS',', '.join(f'El::{X}(x) => x.attributes_' for X in poly.KINDS)).replace('METAS',', '.join(f'El::{X}(x) => x.meta_' for X in poly.KINDS)).replace('HASVS',', '.join(f'El::{X}(x) => x.hasValue_' for X in poly.KINDS)).replace('DEFAULT',elib.lit('default')).replace('NULLABLE',elib.lit('nullable')).replace('OB',OB).replace('TA',elib.lit('typeAttributes')).replace('VAR',elib.lit('variable')).replace('SAMPLES',elib.lit('samples'))
CONTRACTS=elib.ie_contracts()[:9]+elib.tq_contracts()
on=lambda X: (lambda f: poly.kind_of_ty(f.pt[0].to)==X)
ATTR=lambda X: 'attrs_of(this)'
for X in poly.KINDS:
    CONTRACTS+=elib.as_contracts(X)
    CONTRACTS+=[C(f'hasta_{X}','refract::HasTypeAttribute',['e','typeAttribute'],sig=on(X),requires=[f'wf(El::{X}(e))'],ensures=['ret == has_ta(e.attributes_, typeAttribute)'],hints=[f'lem_idx(e.attributes_.elements, {elib.lit("typeAttributes")});'],invs=['forall|j: int| 0 <= j < {i:it} ==> !is_str_of(#[trigger] ta_seq(e.attributes_)[j], typeAttribute)'],size_req=False),
      C(f'isvar_{X}','refract::IsVariableProperty',['e'],sig=on(X),requires=[f'wf(El::{X}(e))'],ensures=['ret == is_var(e.attributes_)'],hints=[f'lem_idx(e.attributes_.elements, {elib.lit("variable")});'],size_req=False)]

def look(X,key,seqx=''): return [f'lem_idx(e.attributes_.elements, {elib.lit(key)});']
for X in poly.KINDS:
    K=poly.KINDS.index(X)
    CONTRACTS+=[C(f'dflt_{X}','refract::GetDefault',['e'],sig=on(X),requires=[f'wf(El::{X}(e))'],ensures=[f'({{ let p = ie_at(e.attributes_, {elib.lit("default")}); let m = p is Some && *p->Some_0 is {X}; ret_null == !m && (m ==> ret == (*p->Some_0)->{X}_0) }})'],hints=look(X,'default'),size_req=False),
     C(f'sample_{X}','refract::GetSample',['e'],sig=on(X),requires=[f'wf(El::{X}(e))'],ensures=[f'({{ let p = first_sample(e.attributes_); let m = p is Some && *p->Some_0 is {X}; ret_null == !m && (m ==> ret == (*p->Some_0)->{X}_0) }})'],hints=look(X,'samples'),size_req=False),
     C(f'fcmv_{X}','refract::FindCollectionMemberValue',['collection','key'],sig=lambda f,X=X: poly.kind_of_ty(f.rt.to)==X,requires=['wf_ie(collection)'],ensures=[f'({{ let p = ie_at(collection, key); let m = p is Some && *p->Some_0 is {X}; ret_null == !m && (m ==> ret == (*p->Some_0)->{X}_0) }})'],hints=['lem_idx(collection.elements, key);'])]
    if X!='Enum': CONTRACTS+=[C(f'value_{X}','refract::GetValue::operator()',['this_:skip','element'],sig=lambda f,X=X: poly.kind_of_ty(f.pt[0].to)==X,requires=[f'wf(El::{X}(element))'],ensures=[f'({{ let p = effective(El::{X}(element)); ret_null == (p is None) && (p is Some ==> *p->Some_0 == El::{X}(ret)) }})'],size_req=False)]

LIB+="""
// what an enumeration stands for: its sample, its default, its own value, the first enumeration with a value
pub open spec fn enums_of(a: IE) -> Seq<OB> { let p = ie_at(a, ENUMS); if p is Some && *p->Some_0 is Array && (*p->Some_0)->Array_0.hasValue_ { (*p->Some_0)->Array_0.data_.elements_ } else { Seq::empty() } }
pub open spec fn enum_val(e: E_Enum) -> OB decreases e, 1int {
  let i = ie_idx(e.attributes_.elements, SAMPLES); let j = ie_idx(e.attributes_.elements, DEFAULT); let k = ie_idx(e.attributes_.elements, ENUMS); let m = e.attributes_.elements;
  let fs = first_sample(e.attributes_); let fd = ie_at(e.attributes_, DEFAULT);
  if fs is Some && *fs->Some_0 is Enum { if 0 <= i < m.len() && m[i].1 is Some && (*m[i].1->Some_0)->Array_0.data_.elements_.len() > 0 { enum_val((*(*m[i].1->Some_0)->Array_0.data_.elements_[0]->Some_0)->Enum_0) } else { None } }
  else if fd is Some && *fd->Some_0 is Enum { if 0 <= j < m.len() { enum_val((*m[j].1->Some_0)->Enum_0) } else { None } }
  else if e.hasValue_ && e.data_.value_ is Some { e.data_.value_ }
  else if 0 <= k < m.len() && m[k].1 is Some && *m[k].1->Some_0 is Array && (*m[k].1->Some_0)->Array_0.hasValue_ { enum_first((*m[k].1->Some_0)->Array_0.data_.elements_, 0) }
  else { None } }
pub open spec fn enum_first(s: Seq<OB>, i: int) -> OB decreases s, s.len() - i {
  if i < 0 || i >= s.len() { None } else if s[i] is None { enum_first(s, i + 1) }
  else { let v = if *s[i]->Some_0 is Enum { enum_val((*s[i]->Some_0)->Enum_0) } else { None };
    if v is Some { v } else if hasval(*s[i]->Some_0) { s[i] } else { enum_first(s, i + 1) } } }
pub proof fn sub_at(m: IE, k: Seq<u8>) requires wf_ie(m) ensures ({ let i = ie_idx(m.elements, k); 0 <= i < m.elements.len() ==> m.elements[i].1 is Some && wf(*m.elements[i].1->Some_0) && decreases_to!(m => *m.elements[i].1->Some_0) })
{ lem_idx(m.elements, k); let i = ie_idx(m.elements, k); if 0 <= i < m.elements.len() { assert(wf_ob(m.elements[i].1)); assert(decreases_to!(m => m.elements)); assert(decreases_to!(m.elements => m.elements[i])); assert(decreases_to!(m.elements[i] => m.elements[i].1)); } }
pub proof fn sub_arr(d: D_Array, i: int) requires wf_dArray(d), 0 <= i < d.elements_.len() ensures d.elements_[i] is Some && wf(*d.elements_[i]->Some_0) && decreases_to!(d => *d.elements_[i]->Some_0)
{ assert(wf_ob(d.elements_[i])); assert(decreases_to!(d => d.elements_)); assert(decreases_to!(d.elements_ => d.elements_[i])); }
// comparison of an element, or of the key / value of a member, with a text
pub open spec fn cmp_val(e: El, w: Seq<u8>) -> bool decreases e { match e { El::String(x) => x.data_.value_ == w, El::Member(x) => x.data_.value_ is Some && cmp_val(*x.data_.value_->Some_0, w), _ => false } }
pub open spec fn cmp_key(e: El, w: Seq<u8>) -> bool { e is Member && e->Member_0.data_.key_ is Some && cmp_val(*e->Member_0.data_.key_->Some_0, w) }
""".replace('OB',OB).replace('ENUMS',elib.lit('enumerations')).replace('SAMPLES',elib.lit('samples')).replace('DEFAULT',elib.lit('default'))
EN='Enum'
CONTRACTS+=[C('value_Enum','refract::GetValue::operator()',['this_:skip','element'],sig=on('Enum'),requires=['wf(El::Enum(element))'],ensures=['({ let p = enum_val(element); ret_null == (p is None) && (p is Some ==> *p->Some_0 == ret) })'],dec=['element','0int'],
   invs=['enum_first(enums_of(element.attributes_), 0) == enum_first(enums_of(element.attributes_), {i:it})'],size_req=False,hints=[x.replace('(e.','(element.') for k in ('samples','default','enumerations') for x in look('Enum',k)]+['sub_at(element.attributes_, %s);'%elib.lit(k) for k in ('samples','default','enumerations')]+['if first_sample(element.attributes_) is Some { sub_arr((*ie_at(element.attributes_, %s)->Some_0)->Array_0.data_, 0); }'%elib.lit('samples')],loophints=['sub_at(element.attributes_, %s);'%elib.lit('enumerations'),'if 0 <= {i:it} < enums_of(element.attributes_).len() { sub_arr((*ie_at(element.attributes_, %s)->Some_0)->Array_0.data_, {i:it}); }'%elib.lit('enumerations')]),
 C('enums','refract::GetValue::GetEnumerations',['this_:skip','e'],requires=['wf(El::Enum(e))'],ensures=[f'({{ let p = ie_at(e.attributes_, {elib.lit("enumerations")}); let m = p is Some && *p->Some_0 is Array; ret_null == !m && (m ==> ret == (*p->Some_0)->Array_0) }})'],hints=look('Enum','enumerations'),size_req=False,ifpresent=True),
 C('descr','refract::GetDescription',['e'],requires=['wf(e)'],ensures=[f'({{ let p = ie_at(meta(e), {elib.lit("description")}); let m = p is Some && *p->Some_0 is String; ret_null == !m && (m ==> ret == (*p->Some_0)->String_0) }})'],hints=[f'lem_idx(meta(e).elements, {elib.lit("description")});'],size_req=False),
 C('cmp_member','refract::ComparableVisitor::operator()',['this_','e'],sig=on('Member'),requires=['wf(El::Member(e))'],pure='S_refract_ComparableVisitor { result: if this_.compare == 0 { cmp_key(El::Member(e), this_.compare_to) } else { cmp_val(El::Member(e), this_.compare_to) }, ..this_ }',hints=['reveal_with_fuel(cmp_val, 3);'],dec=['e'],size_req=False),
]
LIB+="""
// merging the layers of an extend element (property C18): a function of the layers, or an error
pub uninterp spec fn merge_sp(d: D_Extend) -> OB;
pub uninterp spec fn merge_bad(d: D_Extend) -> bool;
pub open spec fn text_of(e: El) -> Seq<u8> { if e is String { e->String_0.data_.value_ } else { Seq::empty() } }
pub open spec fn key_string(m: E_Member) -> Seq<u8> { let k = m.data_.key_;
  if k is None || !hasval(*k->Some_0) { Seq::empty() } else { match *k->Some_0 { El::String(x) => x.data_.value_,
    El::Extend(x) => { let g = merge_sp(x.data_); if g is Some && *g->Some_0 is String { let t = (*g->Some_0)->String_0;
        if !t.hasValue_ || t.data_.value_.len() == 0 { let v = effective(El::String(t)); if v is Some && hasval(*v->Some_0) { text_of(*v->Some_0) } else { Seq::empty() } } else { t.data_.value_ } } else { Seq::empty() } },
    _ => Seq::empty() } } }
pub open spec fn key_throws(m: E_Member) -> bool { let k = m.data_.key_; k is Some && hasval(*k->Some_0) && *k->Some_0 is Extend && merge_bad((*k->Some_0)->Extend_0.data_) }
pub open spec fn is_literal(e: El) -> bool { !(e is Null) && (hasval(e) && (e is String || e is Number || e is Boolean) || has_ta(attrs(e), FIXED)) }
pub open spec fn fm_idx(s: Seq<OB>, w: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { let r = fm_idx(s.drop_last(), w); if r < s.len() - 1 { r } else if s.last() is Some && cmp_key(*s.last()->Some_0, w) { s.len() - 1 } else { s.len() as int } } }
pub proof fn lem_fm(s: Seq<OB>, w: Seq<u8>) ensures 0 <= fm_idx(s, w) <= s.len(), fm_idx(s, w) < s.len() ==> s[fm_idx(s, w)] is Some && cmp_key(*s[fm_idx(s, w)]->Some_0, w), forall|j: int| 0 <= j < fm_idx(s, w) ==> !((#[trigger] s[j]) is Some && cmp_key(*s[j]->Some_0, w)) decreases s.len()
{ if s.len() > 0 { lem_fm(s.drop_last(), w); let r = fm_idx(s.drop_last(), w); if r < s.len() - 1 { assert(s.drop_last()[r] == s[r]); } assert forall|j: int| 0 <= j < fm_idx(s, w) implies !((#[trigger] s[j]) is Some && cmp_key(*s[j]->Some_0, w)) by { if j < s.len() - 1 { assert(s.drop_last()[j] == s[j]); } } } }
""".replace('OB',OB).replace('FIXED',elib.lit('fixed'))
CONTRACTS+=[C('merge','refract::dsd::Extend::merge',['this_'],requires=['wf_dExtend(this_)'],trusted=True,throws=True,ensures=['exc == merge_bad(this_)','!exc ==> ret == merge_sp(this_) && wf_ob(ret)'],size_req=False),
 C('keystr','refract::GetKeyAsString',['e'],requires=['wf(El::Member(e))'],throws=True,ensures=['exc == key_throws(e)','!exc ==> ret == key_string(e)'],hints=['if e.data_.key_ is Some { assert(wf(*e.data_.key_->Some_0)); }'],size_req=False),
 C('isliteral','refract::IsLiteral',['e'],requires=['wf(e)'],ensures=['ret == is_literal(e)'],size_req=False),
 C('hasta_el','refract::HasTypeAttribute',['e','typeAttribute'],sig=lambda f: poly.is_base(f.pt[0].to),requires=['wf(e)'],ensures=['ret == has_ta(attrs(e), typeAttribute)'],hints=[f'lem_idx(attrs(e).elements, {elib.lit("typeAttributes")});'],invs=['forall|j: int| 0 <= j < {i:it} ==> !is_str_of(#[trigger] ta_seq(attrs(e))[j], typeAttribute)'],size_req=False),
 C('isvar_el','refract::IsVariableProperty',['e'],sig=lambda f: poly.is_base(f.pt[0].to),requires=['wf(e)'],ensures=['ret == is_var(attrs(e))'],hints=[f'lem_idx(attrs(e).elements, {elib.lit("variable")});'],size_req=False),
 C('fmk','refract::FindMemberByKey',['e','name'],requires=['wf(El::Object(e))','e.data_.elements_.len() < szmax()'],ret='val',ensures=['({ let i = fm_idx(e.data_.elements_, name); ret_null == (i == e.data_.elements_.len()) && (i < e.data_.elements_.len() ==> *e.data_.elements_[i]->Some_0 == El::Member(ret)) })'],hints=['lem_fm(e.data_.elements_, name);','reveal_with_fuel(cmp_val, 3);','assert forall|i: int| 0 <= i < e.data_.elements_.len() implies wf(*(#[trigger] e.data_.elements_[i])->Some_0) by { assert(wf_ob(e.data_.elements_[i])); }']),
]
