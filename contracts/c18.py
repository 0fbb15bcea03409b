"""C18: merging the layers of an extend element"""
from vx.engine import Contract as C
from vx import poly, elib
ID='C18'
TUS=['tus/refract_query.cc']
UNIT=poly.unit; ENG=poly.PEng
OB='Option<Box<El>>'; L=elib.lit
LIB=elib.WF+elib.CLONE+elib.TQ+elib.IELIB+elib.EQLIB+elib.ACC+elib.IEAT+elib.CONT+'''
// which keys of a later layer are not taken over: 0 none, 1 id/prefix/namespace, 2 enumerations
pub open spec fn skipk(m: int, k: Seq<u8>) -> bool { (m == 1 && (k =~= ID || k =~= PREFIX || k =~= NAMESPACE)) || (m == 2 && k =~= ENUMS) }
// the entries t overridden by the first n entries of s
pub open spec fn im(t: Seq<ENT>, s: Seq<ENT>, m: int, n: int) -> Seq<ENT> decreases n { if n <= 0 { t } else { let p = im(t, s, m, n - 1); if skipk(m, s[n - 1].0) { p } else { ie_set(p, s[n - 1].0, s[n - 1].1) } } }
pub open spec fn ims(t: IE, s: IE, m: int) -> IE { IE { elements: im(t.elements, s.elements, m, s.elements.len() as int) } }
pub proof fn im_mono(t: Seq<ENT>, s: Seq<ENT>, m: int, n: int, k: int) requires 0 <= n <= k <= s.len() ensures im(t, s, m, n).len() <= im(t, s, m, k).len() decreases k - n { if n < k { im_mono(t, s, m, n, k - 1); } }
pub proof fn im_wf(t: IE, s: IE, m: int, n: int) requires wf_ie(t), wf_ie(s), 0 <= n <= s.elements.len(), im(t.elements, s.elements, m, n).len() <= szmax() ensures wf_ie(IE { elements: im(t.elements, s.elements, m, n) }) decreases n
{ if n > 0 { im_mono(t.elements, s.elements, m, n - 1, n); im_wf(t, s, m, n - 1); let p = im(t.elements, s.elements, m, n - 1); lem_idx(p, s.elements[n - 1].0); assert(s.elements[n - 1].1 is Some); let q = im(t.elements, s.elements, m, n);
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).1 is Some && wf_ob(q[i].1) by { if i < p.len() { assert(p[i].1 is Some); } } } }
'''.replace('ENT',elib.ENT).replace('ID',L('id')).replace('PREFIX',L('prefix')).replace('NAMESPACE',L('namespace')).replace('ENUMS',L('enumerations'))
N='(anonymous namespace)::'
CONTRACTS=elib.clone_contracts()+elib.ie_contracts()+elib.tq_contracts()
for m,S in enumerate(('SkipNothing','SkipMetaKeywords','SkipEnumerations')):
    I=f'im(target.elements, source.elements, {m}, {{i:it}})'
    CONTRACTS.append(C('info_'+S,N+'InfoMerge::operator()',['this_:skip','target','source'],sig=lambda f,S=S: f.rec is not None and S in f.rec.key,ret='=target',
      requires=['wf_ie(target)','wf_ie(source)',f'ims(target, source, {m}).elements.len() <= szmax()'],ensures=[f'target_out.elements == ims(target, source, {m}).elements'],
      invs=[f'{{t:IE}} == (IE {{ elements: {I} }})','{i:it} >= 0'],loophints=[f'if 0 <= {{i:it}} <= source.elements.len() {{ im_mono(target.elements, source.elements, {m}, {{i:it}}, source.elements.len() as int); im_wf(target, source, {m}, {{i:it}}); }} if 0 <= {{i:it}} < source.elements.len() {{ let e_ = source.elements[{{i:it}}]; assert(wf_ob(e_.1)); full_clone(*e_.1->Some_0); }}'],size_req=False))
LIB+='''
// the text a member goes by: its key when that is a text
pub open spec fn tkey(e: El) -> Option<Seq<u8>> { if e is Member && e->Member_0.data_.key_ is Some && *e->Member_0.data_.key_->Some_0 is String { Some((*e->Member_0.data_.key_->Some_0)->String_0.data_.value_) } else { None } }
pub open spec fn okey(p: OB) -> Option<Seq<u8>> { match p { Some(b) => tkey(*b), None => None } }
// a member of an object (or an option of one of its selects) goes by the key
pub open spec fn has_tkey(s: Seq<OB>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && okey(#[trigger] s[i]) == Some(k) }
pub open spec fn opt_tkey(p: Option<Box<E_Option>>, k: Seq<u8>) -> bool { match p { Some(o) => has_tkey(o.data_.elements_, k), None => false } }
pub open spec fn sel_tkey(s: Seq<Option<Box<E_Option>>>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && opt_tkey(#[trigger] s[i], k) }
// t is what m replaces
pub open spec fn replaces(m: El, t: El) -> bool { match m {
  El::Member(_) => tkey(m) is Some && (tkey(t) == tkey(m) || t is Select && sel_tkey(t->Select_0.data_.elements_, tkey(m)->Some_0)),
  El::Ref(r) => t is Ref && t->Ref_0.data_.data_ == r.data_.data_,
  _ => false } }
pub open spec fn rep_idx(s: Seq<OB>, m: El, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() { s.len() as int } else if s[i] is Some && replaces(m, *s[i]->Some_0) { i } else { rep_idx(s, m, i + 1) } }
pub proof fn lem_rep(s: Seq<OB>, m: El, i: int) requires 0 <= i <= s.len() ensures i <= rep_idx(s, m, i) <= s.len(), rep_idx(s, m, i) < s.len() ==> s[rep_idx(s, m, i)] is Some && replaces(m, *s[rep_idx(s, m, i)]->Some_0), forall|j: int| i <= j < rep_idx(s, m, i) ==> !((#[trigger] s[j]) is Some && replaces(m, *s[j]->Some_0)) decreases s.len() - i
{ if i < s.len() && !(s[i] is Some && replaces(m, *s[i]->Some_0)) { lem_rep(s, m, i + 1); } }
pub open spec fn put(s: Seq<OB>, m: El) -> Seq<OB> { let i = rep_idx(s, m, 0); if i < s.len() { s.update(i, Some(Box::new(m))) } else { s.push(Some(Box::new(m))) } }
// the members s overridden by the first n of ms
pub open spec fn puts(s: Seq<OB>, ms: Seq<OB>, n: int) -> Seq<OB> decreases n { if n <= 0 { s } else { put(puts(s, ms, n - 1), *ms[n - 1]->Some_0) } }
pub proof fn puts_mono(s: Seq<OB>, ms: Seq<OB>, n: int, k: int) requires 0 <= n <= k <= ms.len() ensures puts(s, ms, n).len() <= puts(s, ms, k).len() decreases k - n { if n < k { puts_mono(s, ms, n, k - 1); } }
pub proof fn puts_wf(s: D_Object, ms: D_Object, n: int) requires wf_dObject(s), wf_dObject(ms), 0 <= n <= ms.elements_.len(), puts(s.elements_, ms.elements_, n).len() <= szmax() ensures wf_dObject(D_Object { elements_: puts(s.elements_, ms.elements_, n) }) decreases n
{ if n > 0 { puts_mono(s.elements_, ms.elements_, n - 1, n); puts_wf(s, ms, n - 1); let p = puts(s.elements_, ms.elements_, n - 1); assert(ms.elements_[n - 1] is Some); lem_rep(p, *ms.elements_[n - 1]->Some_0, 0); let q = puts(s.elements_, ms.elements_, n);
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) is Some && wf_ob(q[i]) by { if i < p.len() { assert(p[i] is Some); } } } }
'''.replace('OB',OB)
LIB+=''.join(f"pub open spec fn vm_{X}(t: E_{X}, a: E_{X}) -> E_{X} {{ E_{X} {{ hasValue_: true, data_: a.data_, ..t }} }}\n" for X in ('String','Number','Boolean','Ref','Enum'))+'''
// the items an element starts from: a stale payload of an element without a value does not count
pub open spec fn bs(h: bool, s: Seq<Option<Box<El>>>) -> Seq<Option<Box<El>>> { if h { s } else { Seq::empty() } }
pub open spec fn vm_Array(t: E_Array, a: E_Array) -> E_Array { if a.hasValue_ && a.data_.elements_.len() > 0 { E_Array { hasValue_: true, data_: D_Array { elements_: bs(t.hasValue_, t.data_.elements_) + a.data_.elements_ }, ..t } } else { t } }
pub open spec fn vm_Object(t: E_Object, a: E_Object) -> E_Object { if a.hasValue_ && a.data_.elements_.len() > 0 { E_Object { hasValue_: true, data_: D_Object { elements_: puts(bs(t.hasValue_, t.data_.elements_), a.data_.elements_, a.data_.elements_.len() as int) }, ..t } } else { t } }
'''
PRIM=('String','Number','Boolean','Ref','Enum')
for X in PRIM+('Array','Object'): CONTRACTS+=elib.as_contracts(X) if X!='Enum' else []
CONTRACTS+=elib.as_contracts('Member')+elib.as_contracts('Select')
vsig=lambda X: (lambda f: f.rec is not None and f.rec.key.startswith(N+'ValueMerge') and poly.kind_of_ty(f.pt[0].to)==X)
for X in PRIM:
    CONTRACTS.append(C('value_'+X,N+'ValueMerge::operator()',['this_:skip','value','merge'],sig=vsig(X),requires=[f'wf(El::{X}(value))',f'wf(El::{X}(merge))','merge.hasValue_'],ensures=[f'value_out == vm_{X}(value, merge)'],size_req=False))
CONTRACTS+=[C('tclone_el','refract::clone',['el','flags'],sig=lambda f: f.pt[0].k=='ref' and poly.is_base(f.pt[0].to),requires=['wf(el)'],pure='Some(Box::new(clone_sp(el, flags as int)))',dec=['el','2int'],size_req=False)]
CONTRACTS+=[C('value_Array',N+'ValueMerge::operator()',['this_:skip','value','merge'],sig=vsig('Array'),requires=['wf(El::Array(value))','wf(El::Array(merge))','wf(El::Array(vm_Array(value, merge)))'],ensures=['value_out == vm_Array(value, merge)'],
   hints=['assert(bs(value.hasValue_, value.data_.elements_) + merge.data_.elements_.take(0) =~= bs(value.hasValue_, value.data_.elements_));'],
   invs=['{v:E_Array} == (E_Array { hasValue_: true, data_: D_Array { elements_: bs(value.hasValue_, value.data_.elements_) + merge.data_.elements_.take({i:it}) }, ..value })','{i:it} >= 0'],
   loophints=['assert(vm_Array(value, merge).data_.elements_.len() <= szmax()); if 0 <= {i:it} < merge.data_.elements_.len() { let m_ = merge.data_.elements_[{i:it}]; assert(m_ is Some && wf_ob(m_)); full_clone(*m_->Some_0); let p_ = bs(value.hasValue_, value.data_.elements_) + merge.data_.elements_.take({i:it}); assert(p_.push(m_) =~= bs(value.hasValue_, value.data_.elements_) + merge.data_.elements_.take({i:it} + 1)); assert(ins(p_, p_.len() as int, m_) =~= p_.push(m_)); } assert(merge.data_.elements_.take(merge.data_.elements_.len() as int) =~= merge.data_.elements_);','assert(bs(value.hasValue_, value.data_.elements_) + merge.data_.elements_.take(0) =~= bs(value.hasValue_, value.data_.elements_));'],size_req=False),
 C('value_Object',N+'ValueMerge::operator()',['this_:skip','value','merge'],sig=vsig('Object'),requires=['wf(El::Object(value))','wf(El::Object(merge))','wf(El::Object(vm_Object(value, merge)))'],ensures=['value_out == vm_Object(value, merge)'],
   invs=['{v:E_Object} == (if {i:it} == 0 && !value.hasValue_ { value } else { E_Object { hasValue_: true, data_: D_Object { elements_: puts(bs(value.hasValue_, value.data_.elements_), merge.data_.elements_, {i:it}) }, ..value } })','{i:it} >= 0'],
   loophints=['if 0 <= {i:it} <= merge.data_.elements_.len() { puts_mono(bs(value.hasValue_, value.data_.elements_), merge.data_.elements_, {i:it}, merge.data_.elements_.len() as int); puts_wf(D_Object { elements_: bs(value.hasValue_, value.data_.elements_) }, merge.data_, {i:it}); } if 0 <= {i:it} < merge.data_.elements_.len() { let m_ = merge.data_.elements_[{i:it}]; assert(m_ is Some && wf_ob(m_)); full_clone(*m_->Some_0); lem_rep(puts(bs(value.hasValue_, value.data_.elements_), merge.data_.elements_, {i:it}), *m_->Some_0, 0); sel_wf(puts(bs(value.hasValue_, value.data_.elements_), merge.data_.elements_, {i:it})); assert(okey(Some(Box::new(*m_->Some_0))) == tkey(*m_->Some_0)); put_forms(puts(bs(value.hasValue_, value.data_.elements_), merge.data_.elements_, {i:it}), m_); }'],size_req=False)]
LIB+='''
pub proof fn put_forms(s: Seq<OB>, m: OB) ensures forall|i: int| #![trigger s.take(i)] 0 <= i < s.len() ==> (s.take(i) + s.skip(i + 1)).insert(i, m) == s.update(i, m) { assert forall|i: int| #![trigger s.take(i)] 0 <= i < s.len() implies (s.take(i) + s.skip(i + 1)).insert(i, m) == s.update(i, m) by { assert((s.take(i) + s.skip(i + 1)).insert(i, m) =~= s.update(i, m)); } }
'''.replace('OB',OB)

LIB+='''
pub proof fn sel_wf(s: Seq<OB>) requires wf_dObject(D_Object { elements_: s }) ensures
  forall|q: int, p: int| 0 <= q < s.len() && *s[q]->Some_0 is Select && 0 <= p < (*s[q]->Some_0)->Select_0.data_.elements_.len() ==> (#[trigger] (*s[q]->Some_0)->Select_0.data_.elements_[p]) is Some && wf_dOption((*s[q]->Some_0)->Select_0.data_.elements_[p]->Some_0.data_)
{ assert forall|q: int, p: int| 0 <= q < s.len() && *s[q]->Some_0 is Select && 0 <= p < (*s[q]->Some_0)->Select_0.data_.elements_.len() implies (#[trigger] (*s[q]->Some_0)->Select_0.data_.elements_[p]) is Some && wf_dOption((*s[q]->Some_0)->Select_0.data_.elements_[p]->Some_0.data_) by {
  assert(s[q] is Some && wf_ob(s[q])); assert(wf(*s[q]->Some_0)); let x = (*s[q]->Some_0)->Select_0; assert(wf_dSelect(x.data_)); assert(x.data_.elements_[p] is Some && wf_obo(x.data_.elements_[p])); assert(wf_Option(*x.data_.elements_[p]->Some_0)); } }
'''.replace('OB',OB)

# ---- one layer merged into the result of those before it
KM=PRIM+('Array','Object')
LIB+=''.join(f"pub open spec fn em_{X}(t: E_{X}, a: E_{X}) -> E_{X} {{ let v = E_{X} {{ meta_: ims(t.meta_, a.meta_, 1), attributes_: ims(t.attributes_, a.attributes_, 0), ..t }}; if a.hasValue_ {{ vm_{X}(v, a) }} else {{ v }} }}\n" for X in KM if X!='Enum')
esig=lambda X: (lambda f: f.rec is not None and f.rec.key.startswith(N+'ElementMerge') and f.rec.key.endswith('Element<refract::dsd::'+X+'>>'))
for X in KM:
    if X=='Enum': continue
    CONTRACTS.append(C('merge_'+X,N+'ElementMerge::operator()',['this_:skip','target','append'],sig=esig(X),requires=[f'target is {X}',f'append is {X}','wf(target)','wf(append)',f'wf(El::{X}(em_{X}(target->{X}_0, append->{X}_0)))'],
      ensures=[f'target_out == El::{X}(em_{X}(target->{X}_0, append->{X}_0))'],size_req=False))

LIB+='''
pub open spec fn ENUMK() -> Seq<u8> { ENUMS }
// entries that are not taken over stay as they are
pub proof fn set_other(s: Seq<ENT>, k: Seq<u8>, v: OB, q: Seq<u8>) requires k != q ensures ({ let t = ie_set(s, k, v); let i = ie_idx(s, q); if i < s.len() { ie_idx(t, q) == i && t[i] == s[i] } else { ie_idx(t, q) == t.len() } })
{ lem_idx(s, k); lem_idx(s, q); let t = ie_set(s, k, v); lem_idx(t, q); let i = ie_idx(s, q); let j = ie_idx(t, q);
  assert(forall|x: int| 0 <= x < s.len() ==> (#[trigger] t[x]).0 == s[x].0);
  if i < s.len() { assert(t[i] == s[i]); if j < i { assert(t[j].0 == s[j].0); assert(s[j].0 != q); } } else if j < t.len() { if j < s.len() { assert(t[j].0 == s[j].0); } } }
pub proof fn im_keeps(t: Seq<ENT>, s: Seq<ENT>, m: int, n: int, q: Seq<u8>) requires 0 <= n <= s.len(), skipk(m, q) ensures ({ let r = im(t, s, m, n); let i = ie_idx(t, q); if i < t.len() { ie_idx(r, q) == i && i < r.len() && r[i] == t[i] } else { ie_idx(r, q) == r.len() } }) decreases n
{ lem_idx(t, q); if n > 0 { im_keeps(t, s, m, n - 1, q); let p = im(t, s, m, n - 1); lem_idx(p, q); lem_idx(p, s[n - 1].0); if !skipk(m, s[n - 1].0) { set_other(p, s[n - 1].0, s[n - 1].1, q); } } }
// enumerations, when there, are an array
pub open spec fn en_ok(ie: IE) -> bool { let i = ie_idx(ie.elements, ENUMK()); i < ie.elements.len() ==> ie.elements[i].1 is Some && *ie.elements[i].1->Some_0 is Array }
// one more value: an equal one moves to the end
pub open spec fn xm_idx(s: Seq<OB>, x: El, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() { s.len() as int } else if eqel(x, *s[i]->Some_0) { i } else { xm_idx(s, x, i + 1) } }
pub proof fn lem_xm(s: Seq<OB>, x: El, i: int) requires 0 <= i <= s.len() ensures i <= xm_idx(s, x, i) <= s.len(), xm_idx(s, x, i) < s.len() ==> eqel(x, *s[xm_idx(s, x, i)]->Some_0), forall|j: int| i <= j < xm_idx(s, x, i) ==> !eqel(x, *(#[trigger] s[j])->Some_0) decreases s.len() - i
{ if i < s.len() && !eqel(x, *s[i]->Some_0) { lem_xm(s, x, i + 1); } }
pub open spec fn xm(s: Seq<OB>, x: El) -> Seq<OB> { let i = xm_idx(s, x, 0); (if i < s.len() { s.take(i) + s.skip(i + 1) } else { s }).push(Some(Box::new(x))) }
pub open spec fn xms(s: Seq<OB>, a: Seq<OB>, n: int) -> Seq<OB> decreases n { if n <= 0 { s } else { xm(xms(s, a, n - 1), *a[n - 1]->Some_0) } }
pub proof fn xms_wf(s: D_Array, a: D_Array, n: int, k: int) requires wf_dArray(s), wf_dArray(a), 0 <= n <= k <= a.elements_.len() ensures xms(s.elements_, a.elements_, n).len() <= xms(s.elements_, a.elements_, k).len(), forall|i: int| 0 <= i < xms(s.elements_, a.elements_, n).len() ==> (#[trigger] xms(s.elements_, a.elements_, n)[i]) is Some && wf_ob(xms(s.elements_, a.elements_, n)[i]) decreases k
{ if k > n { xms_wf(s, a, n, k - 1); lem_xm(xms(s.elements_, a.elements_, k - 1), *a.elements_[k - 1]->Some_0, 0); } else if n > 0 { xms_wf(s, a, n - 1, n - 1); let p = xms(s.elements_, a.elements_, n - 1); assert(a.elements_[n - 1] is Some && wf_ob(a.elements_[n - 1])); lem_xm(p, *a.elements_[n - 1]->Some_0, 0); let r = xms(s.elements_, a.elements_, n); let i0 = xm_idx(p, *a.elements_[n - 1]->Some_0, 0);
  assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) is Some && wf_ob(r[i]) by { if i0 < p.len() { if i < i0 { assert(r[i] == p[i]); } else if i < p.len() - 1 { assert(r[i] == p[i + 1]); } } else if i < p.len() { assert(r[i] == p[i]); } } } }
pub open spec fn en_get(ie: Seq<ENT>) -> E_Array { (*ie[ie_idx(ie, ENUMK())].1->Some_0)->Array_0 }
pub open spec fn en_add(e: E_Array, a: E_Array, n: int) -> E_Array { E_Array { data_: D_Array { elements_: xms(e.data_.elements_, a.data_.elements_, n) }, ..e } }
pub open spec fn en_put(s: Seq<ENT>, e: E_Array) -> Seq<ENT> { ie_set(s, ENUMK(), Some(Box::new(El::Array(e)))) }
pub open spec fn ens(t: IE, a: IE) -> IE { let p = ims(t, a, 2).elements; let i = ie_idx(a.elements, ENUMK());
  if i >= a.elements.len() || en_get(a.elements).data_.elements_.len() == 0 { IE { elements: p } } else if ie_idx(p, ENUMK()) >= p.len() { IE { elements: en_put(p, en_get(a.elements)) } } else { IE { elements: en_put(p, en_add(en_get(p), en_get(a.elements), en_get(a.elements).data_.elements_.len() as int)) } } }
pub open spec fn em_Enum(t: E_Enum, a: E_Enum) -> E_Enum { let v = E_Enum { meta_: ims(t.meta_, a.meta_, 1), attributes_: ens(t.attributes_, a.attributes_), ..t }; if a.hasValue_ { vm_Enum(v, a) } else { v } }
'''.replace('OB',OB).replace('ENUMS',L('enumerations')).replace('ENT',elib.ENT)
EQ=[c for c in elib.eq_contracts() if c.name in ('eq_el','eq_el_Option')]
for c in EQ: c.trusted=True   # proved by C15's check
CONTRACTS+=EQ
LIB+='''
pub proof fn en_lem(t: IE, a: IE) requires wf_ie(t), wf_ie(a), en_ok(t), en_ok(a), ie_idx(a.elements, ENUMK()) < a.elements.len(), ens(t, a).elements.len() <= szmax() ensures ({ let p = ims(t, a, 2).elements; let j = ie_idx(p, ENUMK()); let i = ie_idx(a.elements, ENUMK());
    p.len() <= szmax() && i >= 0 && a.elements[i].1 is Some && *a.elements[i].1->Some_0 is Array && wf(*a.elements[i].1->Some_0) && wf_dArray(en_get(a.elements).data_) && clone_sp(*a.elements[i].1->Some_0, 15) == *a.elements[i].1->Some_0 && (j < p.len() ==> 0 <= j && p[j].0 == ENUMK() && p[j].1 is Some && *p[j].1->Some_0 is Array && wf_dArray(en_get(p).data_) && en_put(p, en_add(en_get(p), en_get(a.elements), 0)) == p) })
{ let p = ims(t, a, 2).elements; let k = ENUMK(); lem_idx(p, k); lem_idx(a.elements, k); lem_idx(t.elements, k); im_keeps(t.elements, a.elements, 2, a.elements.len() as int, k); im_wf(t, a, 2, a.elements.len() as int);
  let i = ie_idx(a.elements, k); assert(a.elements[i].1 is Some && wf_ob(a.elements[i].1)); full_clone(*a.elements[i].1->Some_0); assert(wf(*a.elements[i].1->Some_0)); let j = ie_idx(p, k);
  if j < p.len() { assert(p[j].1 is Some && wf_ob(p[j].1)); assert(wf(*p[j].1->Some_0)); let e = en_get(p); assert(en_add(e, en_get(a.elements), 0) == e); assert(Some(Box::new(El::Array(e))) == p[j].1); assert(p[j] == (k, p[j].1)); assert(p.update(j, p[j]) =~= p); } }
pub proof fn en_wf(t: IE, a: IE) requires wf_ie(t), wf_ie(a), ens(t, a).elements.len() <= szmax() ensures wf_ie(ims(t, a, 2)), ims(t, a, 2).elements.len() <= szmax() { im_wf(t, a, 2, a.elements.len() as int); }
// the state after n of the later layer's values
pub open spec fn en_mid(t: E_Enum, a: E_Enum, n: int) -> E_Enum { let p = ims(t.attributes_, a.attributes_, 2).elements; E_Enum { meta_: ims(t.meta_, a.meta_, 1), attributes_: IE { elements: en_put(p, en_add(en_get(p), en_get(a.attributes_.elements), n)) }, ..t } }
pub proof fn en_step(t: IE, a: IE, n: int) requires wf_ie(t), wf_ie(a), en_ok(t), en_ok(a), ie_idx(a.elements, ENUMK()) < a.elements.len(), ens(t, a).elements.len() <= szmax(), ie_idx(ims(t, a, 2).elements, ENUMK()) < ims(t, a, 2).elements.len(), 0 <= n <= en_get(a.elements).data_.elements_.len()
  ensures ({ let p = ims(t, a, 2).elements; let j = ie_idx(p, ENUMK()); let c = en_add(en_get(p), en_get(a.elements), n); let q = en_put(p, c); q.len() == p.len() && ie_idx(q, ENUMK()) == j && q[j] == (ENUMK(), Some(Box::new(El::Array(c))))
    && (forall|i: int| 0 <= i < c.data_.elements_.len() ==> (#[trigger] c.data_.elements_[i]) is Some && wf_ob(c.data_.elements_[i]) && wf(*c.data_.elements_[i]->Some_0))
    && (forall|e: E_Array| #![trigger mkbox(El::Array(e))] q.update(j, (ENUMK(), Some(Box::new(El::Array(e))))) == en_put(p, e))
    && (forall|e: E_Array, f: E_Array| #![trigger mkbox(El::Array(e)), mkbox(El::Array(f))] q.update(j, (ENUMK(), Some(Box::new(El::Array(e))))).update(j, (ENUMK(), Some(Box::new(El::Array(f))))) == en_put(p, f))
    && (n < en_get(a.elements).data_.elements_.len() ==> { let x = en_get(a.elements).data_.elements_[n]; x is Some && wf_ob(x) && wf(*x->Some_0) && clone_sp(*x->Some_0, 15) == *x->Some_0 && 0 <= xm_idx(c.data_.elements_, *x->Some_0, 0) <= c.data_.elements_.len() }) })
{ en_lem(t, a); let p = ims(t, a, 2).elements; let k = ENUMK(); let j = ie_idx(p, k); let A = en_get(a.elements).data_; let c = en_add(en_get(p), en_get(a.elements), n); let q = en_put(p, c); lem_idx(p, k); lem_idx(q, k); assert(q[j].0 == k); assert(ie_idx(q, k) <= j); if ie_idx(q, k) < j { assert(q[ie_idx(q, k)] == p[ie_idx(q, k)]); }
  xms_wf(en_get(p).data_, A, n, n);
  assert forall|i: int| 0 <= i < c.data_.elements_.len() implies (#[trigger] c.data_.elements_[i]) is Some && wf_ob(c.data_.elements_[i]) && wf(*c.data_.elements_[i]->Some_0) by { assert(xms(en_get(p).data_.elements_, A.elements_, n)[i] is Some && wf_ob(xms(en_get(p).data_.elements_, A.elements_, n)[i])); }
  assert forall|e: E_Array| #![trigger mkbox(El::Array(e))] q.update(j, (ENUMK(), Some(Box::new(El::Array(e))))) == en_put(p, e) by { assert(q.update(j, (ENUMK(), Some(Box::new(El::Array(e))))) =~= en_put(p, e)); }
  assert forall|e: E_Array, f: E_Array| #![trigger mkbox(El::Array(e)), mkbox(El::Array(f))] q.update(j, (ENUMK(), Some(Box::new(El::Array(e))))).update(j, (ENUMK(), Some(Box::new(El::Array(f))))) == en_put(p, f) by { assert(q.update(j, (ENUMK(), Some(Box::new(El::Array(e))))).update(j, (ENUMK(), Some(Box::new(El::Array(f))))) =~= en_put(p, f)); }
  if n < A.elements_.len() { let x = A.elements_[n]; assert(x is Some && wf_ob(x)); full_clone(*x->Some_0); lem_xm(c.data_.elements_, *x->Some_0, 0); } }
'''.replace('OB',OB)
PP='target->Enum_0.attributes_, append->Enum_0.attributes_'
HAS='ie_idx(append->Enum_0.attributes_.elements, ENUMK()) < append->Enum_0.attributes_.elements.len()'
CONTRACTS.append(C('merge_Enum',N+'ElementMerge::operator()',['this_:skip','target','append'],sig=esig('Enum'),requires=['target is Enum','append is Enum','wf(target)','wf(append)','en_ok(target->Enum_0.attributes_)','en_ok(append->Enum_0.attributes_)','wf(El::Enum(em_Enum(target->Enum_0, append->Enum_0)))'],
  ensures=['target_out == El::Enum(em_Enum(target->Enum_0, append->Enum_0))'],
  hints=[f'en_wf({PP}); if {HAS} {{ en_lem({PP}); }}'],
  invs=['{t:El} == El::Enum(en_mid(target->Enum_0, append->Enum_0, {i:it}))','{i:it} >= 0'],
  loophints=[f'en_lem({PP}); en_step({PP}, {{i:it}}); let c_ = en_add(en_get(ims({PP}, 2).elements), en_get(append->Enum_0.attributes_.elements), {{i:it}}).data_.elements_; if {{i:it}} < en_get(append->Enum_0.attributes_.elements).data_.elements_.len() {{ lem_xm(c_, *en_get(append->Enum_0.attributes_.elements).data_.elements_[{{i:it}}]->Some_0, 0); }}'],size_req=False))

# ---- all layers
KMS='is_mk'
LIB+='''
pub open spec fn mkind(e: El) -> bool { e is String || e is Number || e is Boolean || e is Array || e is Object || e is Enum || e is Ref }
// two layers that do not merge
pub open spec fn clash(t: El, a: El) -> bool { tq_code(t) != tq_code(a) || !mkind(t) }
pub open spec fn em(t: El, a: El) -> El { match t { ARMS, _ => t } }
pub open spec fn en_oke(e: El) -> bool { e is Enum ==> en_ok(e->Enum_0.attributes_) }
// the first n layers merged, and whether two of them clash
pub open spec fn fold(s: Seq<OB>, n: int) -> OB decreases n { if n <= 0 { None } else { let p = fold(s, n - 1); if p is None { s[n - 1] } else { Some(Box::new(em(*p->Some_0, *s[n - 1]->Some_0))) } } }
pub open spec fn fbad(s: Seq<OB>, n: int) -> bool decreases n { n > 0 && (fbad(s, n - 1) || n > 1 && clash(*fold(s, n - 1)->Some_0, *s[n - 1]->Some_0)) }
pub open spec fn layers_ok(d: D_Extend) -> bool { wf_dExtend(d) && forall|n: int| #![trigger fold(d.elements_, n)] 0 < n <= d.elements_.len() ==> en_oke(*d.elements_[n - 1]->Some_0) && (!fbad(d.elements_, n) ==> wf_ob(fold(d.elements_, n))) }
pub proof fn fbad_mono(s: Seq<OB>, n: int, k: int) requires n <= k, fbad(s, n) ensures fbad(s, k) decreases k - n { if n < k { fbad_mono(s, n, k - 1); } }
pub proof fn em_kind(t: El, a: El) requires !clash(t, a) ensures tq_code(em(t, a)) == tq_code(t) {}
pub proof fn ens_ok(t: IE, a: IE) requires en_ok(t), en_ok(a) ensures en_ok(ens(t, a))
{ let p = ims(t, a, 2).elements; let k = ENUMK(); lem_idx(p, k); lem_idx(a.elements, k); lem_idx(t.elements, k); im_keeps(t.elements, a.elements, 2, a.elements.len() as int, k); let r = ens(t, a).elements; lem_idx(r, k); let j = ie_idx(p, k); let x = ie_idx(r, k);
  if x < r.len() { if j < r.len() && r[j].0 == k { if x < j { assert(r[x].0 == p[x].0); } } } }
pub proof fn fold_some(s: Seq<OB>, n: int) requires 0 < n <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some ensures fold(s, n) is Some decreases n { if n > 1 { fold_some(s, n - 1); } assert(s[n - 1] is Some); }
pub proof fn fold_en(s: Seq<OB>, n: int) requires 0 < n <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some && en_oke(*s[i]->Some_0), !fbad(s, n) ensures fold(s, n) is Some, en_oke(*fold(s, n)->Some_0) decreases n
{ fold_some(s, n); assert(s[n - 1] is Some && en_oke(*s[n - 1]->Some_0)); if n > 1 { fold_en(s, n - 1); let t = *fold(s, n - 1)->Some_0; let a = *s[n - 1]->Some_0; if t is Enum { ens_ok(t->Enum_0.attributes_, a->Enum_0.attributes_); } } }
'''.replace('OB',OB).replace('ARMS',', '.join(f'El::{X}(x) => El::{X}(em_{X}(x, a->{X}_0))' for X in KM))
MG='S_anonymous_namespace_ElementMerger'
CONTRACTS.append(C('merger_step',N+'ElementMerger::operator()',['this_','e'],throws=True,requires=['wf_ob(e)','wf_ob(this_.result)','e is Some ==> en_oke(*e->Some_0)','this_.result is Some ==> en_oke(*this_.result->Some_0) && this_.base == tq_code(*this_.result->Some_0)','e is Some && this_.result is Some && !clash(*this_.result->Some_0, *e->Some_0) ==> wf(em(*this_.result->Some_0, *e->Some_0))'],
  ensures=['exc == (e is Some && this_.result is Some && clash(*this_.result->Some_0, *e->Some_0))',
    '!exc ==> this__out.result == (if e is None { this_.result } else if this_.result is None { e } else { Some(Box::new(em(*this_.result->Some_0, *e->Some_0))) })','!exc && this__out.result is Some ==> this__out.base == tq_code(*this__out.result->Some_0)'],
  hints=['if e is Some { full_clone(*e->Some_0); }'],size_req=False))
E='this_.elements_'
CONTRACTS.append(C('merge','refract::dsd::Extend::merge',['this_'],throws=True,requires=['layers_ok(this_)'],ensures=[f'exc == fbad({E}, {E}.len() as int)',f'!exc ==> ret == fold({E}, {E}.len() as int)'],
  invs=[f'{{m:S_anonymous_namespace_ElementMerger}}.result == fold({E}, {{i:it}})',f'!fbad({E}, {{i:it}})','{m:S_anonymous_namespace_ElementMerger}.result is Some ==> {m:S_anonymous_namespace_ElementMerger}.base == tq_code(*{m:S_anonymous_namespace_ElementMerger}.result->Some_0)','{i:it} >= 0'],
  loophints=[f'assert forall|i: int| 0 <= i < {E}.len() implies (#[trigger] {E}[i]) is Some && en_oke(*{E}[i]->Some_0) by {{ assert(fold({E}, i + 1) == fold({E}, i + 1)); }} if {{i:it}} > 0 {{ fold_en({E}, {{i:it}}); }} if 0 <= {{i:it}} < {E}.len() {{ if fbad({E}, {{i:it}} + 1) {{ fbad_mono({E}, {{i:it}} + 1, {E}.len() as int); }} assert(fold({E}, {{i:it}} + 1) == fold({E}, {{i:it}} + 1)); }}'],size_req=False))
