"""C10: media type serialization"""
from vx.engine import Contract as C
ID='C10'
TUS=['packages/drafter/src/backend/MediaTypeS11n.cc']
TSP=[ord(c) for c in '()<>@,;:\\"/[]?=']
LIB='''
pub open spec fn tspecial(b: int) -> bool { '''+' || '.join(f'b == {c}' for c in TSP)+''' }
// special, white-space or control character
pub open spec fn needsq(b: int) -> bool { tspecial(b) || b == 32 || (0 <= b && b < 32) || b == 127 }
pub open spec fn plain(v: Seq<u8>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> !needsq(v[i] as int) }
pub open spec fn q1(b: u8) -> Seq<u8> { if b == 92 || b == 34 { seq![92u8, b] } else if b == 13 { seq![92u8, 114u8] } else { seq![b] } }
pub open spec fn qtext(v: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { qtext(v, n - 1) + q1(v[n - 1]) } }
pub open spec fn qval(v: Seq<u8>) -> Seq<u8> { if plain(v) { v } else { seq![34u8] + qtext(v, v.len() as int) + seq![34u8] } }
pub open spec fn par1(p: (Seq<u8>, Seq<u8>)) -> Seq<u8> { if p.0.len() == 0 { Seq::empty() } else { seq![59u8, 32u8] + p.0 + seq![61u8] + qval(p.1) } }
pub open spec fn pars(l: Seq<(Seq<u8>, Seq<u8>)>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { pars(l, n - 1) + par1(l[n - 1]) } }
pub open spec fn written(t: S_apib_syntax_media_type) -> Seq<u8> {
  if t.type_.len() == 0 || t.subtype.len() == 0 { Seq::empty() }
  else { t.type_ + seq![47u8] + t.subtype + (if t.suffix.len() == 0 { Seq::empty() } else { seq![43u8] + t.suffix }) + pars(t.parameters, t.parameters.len() as int) } }
// the property: the value is recovered exactly from what is written for it
pub open spec fn unq(w: Seq<u8>) -> Seq<u8> decreases w.len() {
  if w.len() == 0 { Seq::empty() }
  else if w.last() == 114 && w.len() >= 2 && w[w.len() - 2] == 92 && oddrun(w, w.len() - 2) { unq(w.drop_last().drop_last()).push(13u8) }
  else if w.len() >= 2 && w[w.len() - 2] == 92 && oddrun(w, w.len() - 2) { unq(w.drop_last().drop_last()).push(w.last()) }
  else { unq(w.drop_last()).push(w.last()) } }
// is the backslash at i an escape introducer (odd length of the run of backslashes ending at i)
pub open spec fn oddrun(w: Seq<u8>, i: int) -> bool decreases clip(i + 1) { if i < 0 || i >= w.len() || w[i] != 92 { false } else { !oddrun(w, i - 1) } }
pub proof fn oddrun_pre(w: Seq<u8>, x: Seq<u8>, i: int) requires 0 <= i < w.len() ensures oddrun(w + x, i) == oddrun(w, i) decreases i
{ if i > 0 && w[i] == 92 { oddrun_pre(w, x, i - 1); } assert((w + x)[i] == w[i]); if i == 0 { reveal_with_fuel(oddrun, 3); } }
pub proof fn c10_end(v: Seq<u8>, n: int) requires 0 <= n <= v.len() ensures !oddrun(qtext(v, n), qtext(v, n).len() - 1) decreases n
{ if n > 0 { c10_end(v, n - 1); let p = qtext(v, n - 1); let w = qtext(v, n); let b = v[n - 1]; assert(w == p + q1(b));
    if b == 92 || b == 34 || b == 13 { assert(w.last() == q1(b)[1]); assert(w[w.len() - 2] == 92);
       if b == 92 { assert(w[w.len() - 1] == 92); if p.len() > 0 { oddrun_pre(p, q1(b), p.len() - 1); } reveal_with_fuel(oddrun, 3); assert(w.len() == p.len() + 2); assert(oddrun(w, p.len() as int) == !oddrun(w, p.len() - 1)); } }
    else { assert(w.last() == b); } } }
pub proof fn c10_unq(v: Seq<u8>, n: int) requires 0 <= n <= v.len() ensures unq(qtext(v, n)) =~= v.take(n) decreases n
{ if n > 0 { c10_unq(v, n - 1); c10_end(v, n - 1); c10_end(v, n); let p = qtext(v, n - 1); let w = qtext(v, n); let b = v[n - 1]; assert(w == p + q1(b)); assert(v.take(n) =~= v.take(n - 1).push(b));
    if b == 92 || b == 34 || b == 13 { assert(w.len() == p.len() + 2); assert(w[w.len() - 2] == 92); assert(w.drop_last().drop_last() =~= p);
       if p.len() > 0 { oddrun_pre(p, q1(b), p.len() - 1); } reveal_with_fuel(oddrun, 3);
       assert(oddrun(w, p.len() as int)); assert(w.last() == q1(b)[1]); }
    else { assert(w.drop_last() =~= p); assert(w.last() == b); if p.len() > 0 { oddrun_pre(p, q1(b), p.len() - 1); assert(w[w.len() - 2] == p.last()); } } }
  else { assert(qtext(v, n) =~= Seq::empty()); } }
pub proof fn c10_injective(a: Seq<u8>, b: Seq<u8>) requires qval(a) =~= qval(b) ensures a =~= b
{ c10_unq(a, a.len() as int); c10_unq(b, b.len() as int); assert(a.take(a.len() as int) =~= a); assert(b.take(b.len() as int) =~= b);
  let qa = seq![34u8] + qtext(a, a.len() as int) + seq![34u8]; let qb = seq![34u8] + qtext(b, b.len() as int) + seq![34u8];
  if !plain(a) { assert(qval(a)[0] == 34); } if !plain(b) { assert(qval(b)[0] == 34); }
  if plain(a) && !plain(b) { assert(a[0] == 34); }
  if plain(b) && !plain(a) { assert(b[0] == 34); }
  if !plain(a) && !plain(b) { assert(qa.subrange(1, qa.len() - 1) =~= qtext(a, a.len() as int)); assert(qb.subrange(1, qb.len() - 1) =~= qtext(b, b.len() as int)); } }
'''
N='(anonymous namespace)::'
CONTRACTS=[
 C('s8_qtext',N+'s8_qtext',['out','v'],ret='=out',ensures=['out_out =~= out + qtext(v, v.len() as int)'],invs=['{o:Seq<u8>} =~= out + qtext(v, {p:it})'],optional=True,size_req=False),
 C('s8_quoted_string',N+'s8_quoted_string',['out','v'],ret='=out',ensures=['out_out =~= out + seq![34u8] + qtext(v, v.len() as int) + seq![34u8]'],optional=True,size_req=False),
 C('is_tspecial',N+'is_tspecial',['c'],ensures=['ret == tspecial(c as int)'],optional=True),
 C('s8_value',N+'s8_value',['out','v'],ret='=out',ensures=['out_out =~= out + qval(v)'],optional=True,size_req=False),
 C('write','apib::backend::operator<<',['out','obj'],ret='=out',ensures=['out_out =~= out + written(obj)'],
   invs=['{o:Seq<u8>} =~= out + obj.type_ + seq![47u8] + obj.subtype + (if obj.suffix.len() == 0 { Seq::empty() } else { seq![43u8] + obj.suffix }) + pars(obj.parameters, {p:it})'],size_req=False),
]
