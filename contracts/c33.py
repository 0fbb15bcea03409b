"""C33: annotation report"""
from vx.engine import Contract as C
from vx import poly, elib, rep, logm
from contracts import c03, c04, c23, c34
ID='C33'
TUS=['tus/refract_report.cc','packages/drafter/src/SourceMapUtils.cc']
UNIT=rep.unit
ENG=poly.PEng
ASSUME=rep.ASSUME+logm.ASSUME+c34.ASSUME
OB='Option<Box<El>>'
def q(s): return 'seq!['+', '.join(f'{ord(c)}u8' for c in s)+']' if s else 'Seq::<u8>::empty()'
P='S_drafter_AnnotationPosition'; R='S_mdp_Range'; A='S_snowcrash_SourceAnnotation'
import re
LIB=c03.LIB+elib.WF+elib.TQ+elib.IEFIND+c34.LIB+f'''
pub uninterp spec fn sa_ok() -> i32;
pub uninterp spec fn fn_named(n: Seq<u8>) -> int;
#[verifier::external_body] pub proof fn ax_named(n: Seq<u8>) ensures forall|e: El| #[trigger] fn_call(fn_named(n), e) == (el_name_(e) == n) {{ }}
pub open spec fn ie_at(m: IE, k: Seq<u8>) -> {OB} {{ let i = ie_idx(m.elements, k); if 0 <= i < m.elements.len() {{ m.elements[i].1 }} else {{ None }} }}
pub open spec fn attrs(e: El) -> IE {{ match e {{ {', '.join(f'El::{X}(x) => x.attributes_' for X in poly.KINDS)} }} }}
pub open spec fn meta(e: El) -> IE {{ match e {{ {', '.join(f'El::{X}(x) => x.meta_' for X in poly.KINDS)} }} }}
// lines and columns of a range (C04)
pub uninterp spec fn line_pos(idx: Seq<u64>, r: {R}) -> {P};
pub open spec fn lines(p: {P}) -> Seq<u8> {{ {q('; line ')} + dec10(p.fromLine as int) + {q(', column ')} + dec10(p.fromColumn as int) + {q(' - line ')} + dec10(p.toLine as int) + {q(', column ')} + dec10(p.toColumn as int) }}
pub open spec fn span(ls: Seq<Seq<u8>>) -> Seq<u8> {{ Seq::empty() }}
pub open spec fn loc1(s: Seq<{R}>, i: int, ln: bool, src: Seq<u8>) -> Seq<u8> {{ if ln {{ lines(line_pos(line_index(src), s[i])) }} else {{ (if i == 0 {{ {q(' :')} }} else {{ {q(';')} }}) + dec10(s[i].location as int) + {q(':')} + dec10(s[i].length as int) }} }}
pub open spec fn locs(s: Seq<{R}>, i: int, ln: bool, src: Seq<u8>) -> Seq<u8> decreases i {{ if i <= 0 || i > s.len() {{ Seq::empty() }} else {{ locs(s, i - 1, ln, src) + loc1(s, i - 1, ln, src) }} }}
pub open spec fn ann_head(pre: Seq<u8>, a: {A}) -> Seq<u8> {{ pre + (if a.code != sa_ok() {{ {q(' (')} + dec10(a.code as int) + {q(') ')} }} else {{ Seq::empty() }}) + (if a.message.len() > 0 {{ {q(' ')} + a.message }} else {{ Seq::empty() }}) }}
pub open spec fn fits(r: S_snowcrash_Report) -> bool {{ r.error.location.len() <= szmax() && r.warnings.len() <= szmax() && forall|i: int| 0 <= i < r.warnings.len() ==> (#[trigger] r.warnings[i]).location.len() <= szmax() }}
pub open spec fn ann(pre: Seq<u8>, a: {A}, ln: bool, src: Seq<u8>) -> Seq<u8> {{
  ann_head(pre, a) + locs(a.location, a.location.len() as int, ln, src) + seq![10u8] }}
pub open spec fn warns(s: Seq<{A}>, i: int, ln: bool, src: Seq<u8>) -> Seq<u8> decreases i {{ if i <= 0 || i > s.len() {{ Seq::empty() }} else {{ warns(s, i - 1, ln, src) + ann({q('warning:')}, s[i - 1], ln, src) }} }}
pub open spec fn report_text(r: S_snowcrash_Report, ln: bool, src: Seq<u8>) -> Seq<u8> {{
  seq![10u8] + (if r.error.code == sa_ok() {{ {q('OK.'+chr(10))} }} else {{ ann({q('error:')}, r.error, ln, src) }}) + warns(r.warnings, r.warnings.len() as int, ln, src) }}
// ---- annotations held as elements
pub open spec fn uw(x: int) -> u64 {{ (if x < 0 {{ x + 0x1_0000_0000_0000_0000 }} else {{ x }}) as u64 }}
pub open spec fn is_num(p: {OB}) -> bool {{ p is Some && *p->Some_0 is Number }}
pub open spec fn num_text(p: {OB}) -> Seq<u8> {{ (*p->Some_0)->Number_0.data_.value_ }}
pub open spec fn is_arr(p: {OB}, n: int) -> bool {{ p is Some && *p->Some_0 is Array && (n < 0 || (*p->Some_0)->Array_0.data_.elements_.len() == n) }}
pub open spec fn items(p: {OB}) -> Seq<{OB}> {{ (*p->Some_0)->Array_0.data_.elements_ }}
pub open spec fn place(p: {OB}, ln: bool, idx: Seq<u64>) -> Seq<u8> {{
  if !is_arr(p, 2) || !is_num(items(p)[0]) || !is_num(items(p)[1]) {{ Seq::empty() }}
  else if ln {{ lines(line_pos(idx, {R} {{ location: uw(stoll_(cz(num_text(items(p)[0])))), length: uw(stoll_(cz(num_text(items(p)[1])))) }})) }}
  else {{ num_text(items(p)[0]) + {q(':')} + num_text(items(p)[1]) }} }}
pub open spec fn place1(s: Seq<{OB}>, i: int, ln: bool, idx: Seq<u64>) -> Seq<u8> {{ (if ln {{ Seq::empty() }} else if i == 0 || s[i] is None && s[0] is None {{ {q(' :')} }} else {{ {q(';')} }}) + place(s[i], ln, idx) }}
pub open spec fn places(s: Seq<{OB}>, i: int, ln: bool, idx: Seq<u64>) -> Seq<u8> decreases i {{ if i <= 0 || i > s.len() {{ Seq::empty() }} else {{ places(s, i - 1, ln, idx) + place1(s, i - 1, ln, idx) }} }}
pub open spec fn severity(e: El) -> Seq<u8> {{ let p = ie_at(meta(e), {q('classes')}); if is_arr(p, 1) && items(p)[0] is Some && *items(p)[0]->Some_0 is String {{ (*items(p)[0]->Some_0)->String_0.data_.value_ + {q(': ')} }} else {{ Seq::empty() }} }}
pub open spec fn code(e: El) -> Seq<u8> {{ let p = ie_at(attrs(e), {q('code')}); if is_num(p) {{ {q('(')} + num_text(p) + {q(')  ')} }} else {{ Seq::empty() }} }}
pub open spec fn message(e: El) -> Seq<u8> {{ match e {{ El::String(x) => x.data_.value_, _ => Seq::empty() }} }}
pub open spec fn source_map(e: El, ln: bool, idx: Seq<u64>) -> Seq<u8> {{ let p = ie_at(attrs(e), {q('sourceMap')}); if is_arr(p, 1) && is_arr(items(p)[0], -1) {{ places(items(items(p)[0]), items(items(p)[0]).len() as int, ln, idx) }} else {{ Seq::empty() }} }}
pub open spec fn line(e: El, ln: bool, idx: Seq<u64>) -> Seq<u8> {{ if el_name_(e) == {q('annotation')} {{ severity(e) + code(e) + message(e) + source_map(e, ln, idx) }} else {{ Seq::empty() }} }}
pub open spec fn all_lines(s: Seq<El>, i: int, ln: bool, src: Seq<u8>) -> Seq<u8> decreases i {{ if i <= 0 || i > s.len() {{ Seq::empty() }} else {{ all_lines(s, i - 1, ln, src) + line(s[i - 1], ln, idx_of(ln, src)) + seq![10u8] }} }}
pub open spec fn idx_of(ln: bool, src: Seq<u8>) -> Seq<u64> {{ if ln {{ line_index(src) }} else {{ Seq::empty() }} }}
'''
LIB+="""
// what the parts of an annotation read by a report are
pub proof fn lem_at(m: IE, k: Seq<u8>) requires wf_ie(m) ensures ie_at(m, k) is Some ==> wf(*ie_at(m, k)->Some_0)
{ lem_idx(m.elements, k); let i = ie_idx(m.elements, k); if 0 <= i < m.elements.len() { assert(m.elements[i].1 is Some && wf_ob(m.elements[i].1)); } }
pub proof fn lem_arr(p: Option<Box<El>>) requires p is Some, wf(*p->Some_0), is_arr(p, -1) ensures items(p).len() <= szmax(), forall|j: int| 0 <= j < items(p).len() ==> (#[trigger] items(p)[j]) is Some && wf(*items(p)[j]->Some_0)
{ let d = (*p->Some_0)->Array_0.data_; assert(wf_dArray(d)); assert forall|j: int| 0 <= j < items(p).len() implies (#[trigger] items(p)[j]) is Some && wf(*items(p)[j]->Some_0) by { assert(d.elements_[j] is Some && wf_ob(d.elements_[j])); } }
pub proof fn lem_sm(e: El) requires wf(e)
  ensures ({ let p = ie_at(meta(e), CLASSES); p is Some ==> wf(*p->Some_0) && (is_arr(p, -1) ==> items(p).len() <= szmax() && forall|j: int| 0 <= j < items(p).len() ==> (#[trigger] items(p)[j]) is Some) }),
    ({ let p = ie_at(attrs(e), SOURCEMAP); p is Some ==> wf(*p->Some_0) && (is_arr(p, -1) ==> items(p).len() <= szmax()) && (is_arr(p, 1) ==> items(p)[0] is Some && wf(*items(p)[0]->Some_0) && (is_arr(items(p)[0], -1) ==> items(items(p)[0]).len() <= szmax() && forall|j: int| 0 <= j < items(items(p)[0]).len() ==> (#[trigger] items(items(p)[0])[j]) is Some && wf(*items(items(p)[0])[j]->Some_0))) }),
    ie_at(attrs(e), CODE) is Some ==> wf(*ie_at(attrs(e), CODE)->Some_0), wf_ie(attrs(e)), wf_ie(meta(e))
{ lem_at(meta(e), CLASSES); lem_at(attrs(e), CODE); lem_at(attrs(e), SOURCEMAP); let c = ie_at(meta(e), CLASSES); if is_arr(c, -1) { lem_arr(c); }
  let p = ie_at(attrs(e), SOURCEMAP); if is_arr(p, -1) { lem_arr(p); if is_arr(p, 1) { assert(items(p)[0] is Some); if is_arr(items(p)[0], -1) { lem_arr(items(p)[0]); } } } }
""".replace('CLASSES',q('classes')).replace('SOURCEMAP',q('sourceMap')).replace('CODE',q('code'))
LIB+=f"""
pub proof fn cat_lines(x: Seq<u8>, p: {P}) ensures x + lines(p) == x + {q('; line ')} + dec10(p.fromLine as int) + {q(', column ')} + dec10(p.fromColumn as int) + {q(' - line ')} + dec10(p.toLine as int) + {q(', column ')} + dec10(p.toColumn as int)
{{ assert(x + lines(p) =~= x + {q('; line ')} + dec10(p.fromLine as int) + {q(', column ')} + dec10(p.fromColumn as int) + {q(' - line ')} + dec10(p.toLine as int) + {q(', column ')} + dec10(p.toColumn as int)); }}
pub proof fn cat_loc(x: Seq<u8>, a: Seq<u8>, b: Seq<u8>) ensures x + ({q(' :')} + a + {q(':')} + b) == (x + {q(' :')} + a).push(58u8) + b, x + ({q(';')} + a + {q(':')} + b) == (x.push(59u8) + a).push(58u8) + b
{{ assert(x + ({q(' :')} + a + {q(':')} + b) =~= (x + {q(' :')} + a).push(58u8) + b); assert(x + ({q(';')} + a + {q(':')} + b) =~= (x.push(59u8) + a).push(58u8) + b); }}
pub proof fn cat_loc1(h: Seq<u8>, s: Seq<{R}>, i: int, ln: bool, src: Seq<u8>) requires 0 <= i < s.len() ensures h + locs(s, i + 1, ln, src) == (h + locs(s, i, ln, src)) + loc1(s, i, ln, src)
 , ({{ let x = h + locs(s, i, ln, src); let p = line_pos(line_index(src), s[i]); let a = dec10(s[i].location as int); let b = dec10(s[i].length as int);
   x + loc1(s, i, ln, src) == if ln {{ x + {q('; line ')} + dec10(p.fromLine as int) + {q(', column ')} + dec10(p.fromColumn as int) + {q(' - line ')} + dec10(p.toLine as int) + {q(', column ')} + dec10(p.toColumn as int) }} else if i == 0 {{ (x + {q(' :')} + a).push(58u8) + b }} else {{ (x.push(59u8) + a).push(58u8) + b }} }})
{{ assert(h + locs(s, i + 1, ln, src) =~= (h + locs(s, i, ln, src)) + loc1(s, i, ln, src)); let x = h + locs(s, i, ln, src); cat_lines(x, line_pos(line_index(src), s[i])); cat_loc(x, dec10(s[i].location as int), dec10(s[i].length as int)); }}
"""
LIB+="""
pub proof fn lem_lfs(s: Seq<u8>, v: u32, q: int, i: int) requires 0 <= i, v != 0xFFFFFFFF ==> i <= q, s.len() <= szmax()
  ensures sorted_u64(lfs(s, v, q, i)), v == 0xFFFFFFFF ==> lfs(s, v, q, i).len() == 0, 0 <= q <= s.len() ==> lfs(s, v, q, i).len() <= s.len() - q + 1, forall|j: int| 0 <= j < lfs(s, v, q, i).len() ==> #[trigger] lfs(s, v, q, i)[j] >= i decreases 2 * (s.len() - q) + if v == 0xFFFFFFFF { 0int } else { 1 }
{ let n = s.len() as int;
  if v == 0xFFFFFFFF || !(0 <= q <= s.len()) || !(q <= dnext(s, q, n) <= s.len()) || (q == s.len() && dval(s, q, n) != 0xFFFFFFFF) || (q < s.len() && q == dnext(s, q, n)) { }
  else { lem_lfs(s, dval(s, q, n), dnext(s, q, n), i + 1); } }
pub proof fn lem_index(s: Seq<u8>) requires s.len() <= szmax() ensures sorted_u64(line_index(s)), line_index(s).len() <= s.len() + 1
{ let n = s.len() as int; let v = dval(s, 0, n); let q = dnext(s, 0, n); if v != 0xFFFFFFFF && q < 1 { reveal_with_fuel(lfs, 2); assert(lfs(s, v, q, 1).len() <= 1); if q == 0 { } } else { lem_lfs(s, v, q, 1); } }
"""
import copy
G4=copy.copy(c04.CONTRACTS[0]); G4.axioms=['ret == line_pos(idx, range)']
G3=[copy.copy(c) for c in c03.CONTRACTS]; G3[1].ensures=G3[1].ensures+['sorted_u64(ret)']; G3[1].hints=G3[1].hints+['lem_index(source);']; G3[1].loophints=G3[1].loophints+['lem_index(source);']; G3[0].ensures=G3[0].ensures
NS='(anonymous namespace)::'
def gh(c): c.ghost=['err']; c.size_req=False; c.requires=c.requires+['source.len() < szmax()']; c.hints=c.hints+['lem_index(source);']; c.loophints=c.loophints+['lem_index(source);']; return c
AS=[c for X in('Array','String','Number') for c in elib.as_contracts(X)]
FC=[copy.copy(c) for c in c23.CONTRACTS if c.name in('fcmv_Array','fcmv_Number')]
for c in FC: c.ret='val'
AT=NS+'AnnotationToString::'
CONTRACTS=G3+[G4]+[c for c in elib.ie_contracts() if c.name in('ie_size','ie_empty','ie_begin','ie_end','ie_find')]+elib.tq_contracts()+AS+FC+[
 C('to_int','refract::dsd::Number::operator long',['this_'],hints=['cz_len(this_.value_);'],ensures=['ret as int == stoll_(cz(this_.value_))'],size_req=False),
 gh(C('annotation',NS+'PrintAnnotation',['prefix','annotation','source','useLineNumbers'],requires=['annotation.location.len() <= szmax()'],ensures=['err_out =~= err + ann(prefix, annotation, useLineNumbers, source)'],
   loophints=['if 0 <= {i:it} < annotation.location.len() { cat_loc1(err + ann_head(prefix, annotation), annotation.location, {i:it}, useLineNumbers, source); }'],invs=['{o:Seq<u8>} =~= (err + ann_head(prefix, annotation)) + locs(annotation.location, {i:it}, useLineNumbers, source)','{b:bool} == ({i:it} == 0)','{b:bool} == ({i:it} != 0)'])),
 gh(C('report','PrintReport',['report','source','ln'],sig=lambda f: len(f.pt)==3,requires=['fits(report)'],ensures=['err_out =~= err + report_text(report, ln, source)'],invs=['{o:Seq<u8>} =~= err + seq![10u8] + (if report.error.code == sa_ok() { '+q('OK.'+chr(10))+' } else { ann('+q('error:')+', report.error, ln, source) }) + warns(report.warnings, {i:it}, ln, source)'])),
 C('location',AT+'location',['this_','sourceMap'],requires=['!sourceMap_null','wf(sourceMap)','sorted_u64(this_.linesEndIndex)','this_.linesEndIndex.len() <= szmax()'],ensures=['ret =~= place(Some(Box::new(sourceMap)), this_.useLineNumbers, this_.linesEndIndex)','this__out == this_'],size_req=False),
 C('line',AT+'operator()',['this_','annotation'],requires=['!annotation_null','wf(annotation)','sorted_u64(this_.linesEndIndex)','this_.linesEndIndex.len() <= szmax()'],ensures=['ret =~= line(annotation, this_.useLineNumbers, this_.linesEndIndex)','this__out == this_'],size_req=False,
   hints=['lem_sm(annotation);'],loophints=['lem_sm(annotation);'],
   invs=['{o:Seq<u8>} =~= severity(annotation) + code(annotation) + message(annotation) + places(items(items(ie_at(attrs(annotation), '+q('sourceMap')+'))[0]), {i:it}, this_.useLineNumbers, this_.linesEndIndex)','{s:S_anonymous_namespace_AnnotationToString} == this_'.replace('SM','0')]),

]
# the report of a parse result: the annotations among its children, one line each
GC=c34.G('refract::Iterate<refract::Children>',['iterator'],dict(c34.LV,strategy=['apply','*','impl','*','strategy','*']))
CONTRACTS+=c34.mk('kids',GC,'cv',True)+[c for c in c34.CONTRACTS if c.name=='by_name']
SEL='sel(fn_named('+q('annotation')+'), cv(result, 0))'
HD='err + seq![10u8] + (if error == sa_ok() { '+q('OK.'+chr(10))+' } else { Seq::empty() })'
CONTRACTS+=[gh(C('result','PrintReport',['result','source','ln','error'],sig=lambda f: len(f.pt)==4,requires=['!result_null','wf(result)'],ensures=[f'err_out =~= ({HD}) + all_lines({SEL}, {SEL}.len() as int, ln, source)'],
  hints=['ax_named('+q('annotation')+'); lem_sel_wf(fn_named('+q('annotation')+'), result);'],
  loophints=[f'lem_sel_wf(fn_named('+q('annotation')+f'), result); if 0 <= {{i:it}} < {SEL}.len() {{ cat_line({HD}, {SEL}, {{i:it}}, ln, source); }}'],
  invs=[f'{{o:Seq<u8>}} =~= ({HD}) + all_lines({SEL}, {{i:it}}, ln, source)','{s:S_anonymous_namespace_AnnotationToString} == (S_anonymous_namespace_AnnotationToString { linesEndIndex: idx_of(ln, source), useLineNumbers: ln })','{f:S_refract_FilterVisitor}.selected == '+SEL,]))]
LIB+="""
pub proof fn lem_ch(s: Seq<Option<Box<El>>>, i: int) requires forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) is Some && wf_ob(s[j]) ensures forall|j: int| 0 <= j < ch_seq(s, i).len() ==> wf(#[trigger] ch_seq(s, i)[j]) decreases i { if 0 < i <= s.len() { lem_ch(s, i - 1); assert(s[i - 1] is Some && wf_ob(s[i - 1])); let a = ch_seq(s, i - 1); assert(ch_seq(s, i) == a + seq![*s[i - 1]->Some_0]); assert forall|j: int| 0 <= j < ch_seq(s, i).len() implies wf(#[trigger] ch_seq(s, i)[j]) by { if j < a.len() { assert(ch_seq(s, i)[j] == a[j]); } else { assert(ch_seq(s, i)[j] == *s[i - 1]->Some_0); } } } }
pub proof fn lem_cho(s: Seq<Option<Box<E_Option>>>, i: int) requires forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) is Some && wf_obo(s[j]) ensures forall|j: int| 0 <= j < ch_seqo(s, i).len() ==> wf(#[trigger] ch_seqo(s, i)[j]) decreases i { if 0 < i <= s.len() { lem_cho(s, i - 1); assert(s[i - 1] is Some && wf_obo(s[i - 1])); assert(wf_Option(*s[i - 1]->Some_0)); let y = El::Option(*s[i - 1]->Some_0); assert(wf(y)); let a = ch_seqo(s, i - 1); assert(ch_seqo(s, i) == a + seq![y]); assert forall|j: int| 0 <= j < ch_seqo(s, i).len() implies wf(#[trigger] ch_seqo(s, i)[j]) by { if j < a.len() { assert(ch_seqo(s, i)[j] == a[j]); } else { assert(ch_seqo(s, i)[j] == y); } } } }
pub proof fn lem_sel(k: int, s: Seq<El>) requires forall|j: int| 0 <= j < s.len() ==> wf(#[trigger] s[j]) ensures forall|j: int| 0 <= j < sel(k, s).len() ==> wf(#[trigger] sel(k, s)[j]) decreases s.len() { if s.len() > 0 { assert forall|j: int| 0 <= j < s.drop_last().len() implies wf(#[trigger] s.drop_last()[j]) by { assert(s.drop_last()[j] == s[j]); } lem_sel(k, s.drop_last()); let a = sel(k, s.drop_last()); assert forall|j: int| 0 <= j < sel(k, s).len() implies wf(#[trigger] sel(k, s)[j]) by { if j < a.len() { assert(sel(k, s)[j] == a[j]); } else { assert(sel(k, s)[j] == s[s.len() - 1]); } } } }
pub proof fn lem_sel_wf(k: int, e: El) requires wf(e) ensures forall|j: int| 0 <= j < sel(k, cv(e, 0)).len() ==> wf(#[trigger] sel(k, cv(e, 0))[j])
{ match e { El::Array(x) => { lem_ch(x.data_.elements_, x.data_.elements_.len() as int); } El::Object(x) => { lem_ch(x.data_.elements_, x.data_.elements_.len() as int); } El::Extend(x) => { lem_ch(x.data_.elements_, x.data_.elements_.len() as int); } El::Option(x) => { lem_ch(x.data_.elements_, x.data_.elements_.len() as int); } El::Select(x) => { lem_cho(x.data_.elements_, x.data_.elements_.len() as int); } _ => { } }
  lem_sel(k, cv(e, 0)); }
pub proof fn cat_line(h: Seq<u8>, s: Seq<El>, i: int, ln: bool, src: Seq<u8>) requires 0 <= i < s.len() ensures h + all_lines(s, i + 1, ln, src) == ((h + all_lines(s, i, ln, src)) + line(s[i], ln, idx_of(ln, src))) + seq![10u8]
{ assert(h + all_lines(s, i + 1, ln, src) =~= ((h + all_lines(s, i, ln, src)) + line(s[i], ln, idx_of(ln, src))) + seq![10u8]); }
"""
