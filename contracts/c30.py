"""C30: JSON and YAML text"""
from vx.engine import Contract as C
from vx import so, run
from contracts.c01 import UTF8, DEC
from contracts import c02
ID='C30'
TUS=['packages/drafter/src/utils/so/JsonIo.cc','packages/drafter/src/utils/so/YamlIo.cc']
FLAGS=run.STUBS
ENG=so.SEng
UNIT=so.unit
ASSUME=so.ASSUME
def q(s): return 'seq!['+', '.join(f'{ord(c)}u8' for c in s)+']'
JSON=f'''
pub open spec fn je1(b: u8) -> Seq<u8> {{
  if b == 34 {{ seq![92u8, 34u8] }} else if b == 92 {{ seq![92u8, 92u8] }} else if b == 8 {{ {q(chr(92)+'b')} }} else if b == 12 {{ {q(chr(92)+'f')} }}
  else if b == 10 {{ {q(chr(92)+'n')} }} else if b == 13 {{ {q(chr(92)+'r')} }} else if b == 9 {{ {q(chr(92)+'t')} }}
  else if b < 32 {{ seq![92u8, 117u8, 48u8, 48u8, hexd(b as int / 16, false), hexd(b as int % 16, false)] }} else {{ seq![b] }} }}
pub open spec fn jesc(s: Seq<u8>, i: int) -> Seq<u8> decreases s.len() - i {{ if 0 <= i < s.len() {{ je1(s[i]) + jesc(s, i + 1) }} else {{ Seq::empty() }} }}
pub open spec fn spaces(n: int) -> Seq<u8> decreases n {{ if n <= 0 {{ Seq::empty() }} else {{ seq![32u8, 32u8] + spaces(n - 1) }} }}
pub open spec fn brk(pk: bool, n: int) -> Seq<u8> {{ if pk {{ Seq::empty() }} else {{ seq![10u8] + spaces(n) }} }}
pub open spec fn comma(i: int, n: int) -> Seq<u8> {{ if i + 1 < n {{ seq![44u8] }} else {{ Seq::empty() }} }}
pub open spec fn jv(v: V, pk: bool, d: int) -> Seq<u8> decreases v, 0int {{ match v {{
  V::Null(_) => {q('null')}, V::True(_) => {q('true')}, V::False(_) => {q('false')}, V::Number(x) => x.data,
  V::String(x) => seq![34u8] + jesc(x.data, 0) + seq![34u8],
  V::Object(x) => seq![123u8] + jms(x.data, 0, pk, d) + (if x.data.len() > 0 {{ brk(pk, d) }} else {{ Seq::empty() }}) + seq![125u8],
  V::Array(x) => seq![91u8] + jes(x.data, 0, pk, d) + (if x.data.len() > 0 {{ brk(pk, d) }} else {{ Seq::empty() }}) + seq![93u8] }} }}
pub open spec fn jms(m: Seq<(Seq<u8>, V)>, i: int, pk: bool, d: int) -> Seq<u8> decreases m, m.len() - i {{
  if 0 <= i < m.len() {{ brk(pk, d + 1) + seq![34u8] + jesc(m[i].0, 0) + seq![34u8, 58u8] + (if pk {{ Seq::empty() }} else {{ seq![32u8] }}) + jv(m[i].1, pk, d + 1) + comma(i, m.len() as int) + jms(m, i + 1, pk, d) }} else {{ Seq::empty() }} }}
pub open spec fn jes(m: Seq<V>, i: int, pk: bool, d: int) -> Seq<u8> decreases m, m.len() - i {{
  if 0 <= i < m.len() {{ brk(pk, d + 1) + jv(m[i], pk, d + 1) + comma(i, m.len() as int) + jes(m, i + 1, pk, d) }} else {{ Seq::empty() }} }}
// nesting and member counts are within the range of int
pub open spec fn fits(v: V, d: int) -> bool decreases v {{ 0 <= d < 0x7fffffff && match v {{
  V::Object(x) => x.data.len() < 0x7fffffff && forall|i: int| 0 <= i < x.data.len() ==> fits(#[trigger] x.data[i].1, d + 1),
  V::Array(x) => x.data.len() < 0x7fffffff && forall|i: int| 0 <= i < x.data.len() ==> fits(#[trigger] x.data[i], d + 1), _ => true }} }}
'''

# what a JSON reader makes of a string: the content up to the closing quote and where it ends (escapes denote one byte below 0x80 here)
READ="""
pub open spec fn hexv(b: u8) -> int { if 48 <= b <= 57 { b - 48 } else if 65 <= b <= 70 { b - 55 } else if 97 <= b <= 102 { b - 87 } else { -1 } }
pub open spec fn hexs(t: Seq<u8>, i: int, n: int) -> int decreases n { if n <= 0 { 0 } else if i + n > t.len() || i < 0 { -1 } else { let h = hexs(t, i, n - 1); let l = hexv(t[i + n - 1]); if h < 0 || l < 0 { -1 } else { h * 16 + l } } }
pub open spec fn pre_(x: Seq<u8>, r: Option<(Seq<u8>, int)>) -> Option<(Seq<u8>, int)> { match r { Some(p) => Some((x + p.0, p.1)), None => None } }
pub open spec fn jrd(t: Seq<u8>, i: int) -> Option<(Seq<u8>, int)> decreases t.len() - i {
  if i < 0 || i >= t.len() || t[i] < 32 { None } else if t[i] == 34 { Some((Seq::empty(), i + 1)) } else if t[i] != 92 { pre_(seq![t[i]], jrd(t, i + 1)) }
  else if i + 1 >= t.len() { None } else { let c = t[i + 1];
    if c == 34 || c == 92 || c == 47 { pre_(seq![c], jrd(t, i + 2)) } else if c == 98 { pre_(seq![8u8], jrd(t, i + 2)) } else if c == 102 { pre_(seq![12u8], jrd(t, i + 2)) }
    else if c == 110 { pre_(seq![10u8], jrd(t, i + 2)) } else if c == 114 { pre_(seq![13u8], jrd(t, i + 2)) } else if c == 116 { pre_(seq![9u8], jrd(t, i + 2)) }
    else if c == 117 && hexs(t, i + 2, 4) >= 0 && scalar(hexs(t, i + 2, 4)) { pre_(enc(hexs(t, i + 2, 4)), jrd(t, i + 6)) } else { None } } }
pub proof fn lem_hexs(t: Seq<u8>, i: int) requires 0 <= i, i + 4 <= t.len()
  ensures hexs(t, i, 4) == (if hexv(t[i]) < 0 || hexv(t[i + 1]) < 0 || hexv(t[i + 2]) < 0 || hexv(t[i + 3]) < 0 { -1 } else { ((hexv(t[i]) * 16 + hexv(t[i + 1])) * 16 + hexv(t[i + 2])) * 16 + hexv(t[i + 3]) })
{ assert(hexs(t, i, 0) == 0); assert(hexs(t, i, 1) == hexv(t[i])); assert(hexs(t, i, 2) == if hexv(t[i]) < 0 || hexv(t[i + 1]) < 0 { -1 } else { hexv(t[i]) * 16 + hexv(t[i + 1]) });
  assert(hexs(t, i, 3) == if hexv(t[i]) < 0 || hexv(t[i + 1]) < 0 || hexv(t[i + 2]) < 0 { -1 } else { (hexv(t[i]) * 16 + hexv(t[i + 1])) * 16 + hexv(t[i + 2]) }); }
// the property for JSON: a reader recovers exactly the string, whatever surrounds it, and stops at the closing quote
pub proof fn c30_json(s: Seq<u8>, i: int, p: Seq<u8>, z: Seq<u8>) requires 0 <= i <= s.len()
  ensures jrd(p + jesc(s, i) + seq![34u8] + z, p.len() as int) == Some((s.skip(i), (p + jesc(s, i)).len() as int + 1)) decreases s.len() - i
{ let t = p + jesc(s, i) + seq![34u8] + z; let k = p.len() as int;
  if i >= s.len() { assert(jesc(s, i).len() == 0); assert(t[k] == 34); assert(s.skip(i) =~= Seq::<u8>::empty()); }
  else {
    let b = s[i]; let e = je1(b); let q = p + e; let r = jesc(s, i + 1);
    assert(jesc(s, i) == e + r); assert(p + (e + r) =~= q + r); assert(t =~= q + r + seq![34u8] + z);
    c30_json(s, i + 1, q, z);
    assert(jrd(t, q.len() as int) == Some((s.skip(i + 1), (q + r).len() as int + 1)));
    assert(s.skip(i) =~= seq![b] + s.skip(i + 1));
    assert forall|j: int| 0 <= j < e.len() implies t[k + j] == #[trigger] e[j] by {}
    assert(t[k] == e[0]);
    if e.len() > 1 { assert(t[k + 1] == e[1]); }
    if e.len() == 6 { assert(t[k + 2] == e[2]); assert(t[k + 3] == e[3]); assert(t[k + 4] == e[4]); assert(t[k + 5] == e[5]); lem_hexs(t, k + 2); assert(hexs(t, k + 2, 4) == b as int); assert(enc(b as int) =~= seq![b]); }
    assert(jrd(t, k) == pre_(seq![b], jrd(t, q.len() as int)));
  } }
"""
YAML=f"""
pub open spec fn yprint(c: int) -> bool {{ c == 9 || c == 10 || c == 13 || 0x20 <= c <= 0x7E || c == 0x85 || 0xA0 <= c <= 0xD7FF || 0xE000 <= c <= 0xFFFD && c != 0xFEFF || 0x10000 <= c <= 0x10FFFF }}
pub open spec fn yshort(c: int) -> u8 {{ """+' else '.join(f"if c == {c} {{ {ord(x)}u8 }}" for c,x in ((0,'0'),(7,'a'),(8,'b'),(9,'t'),(10,'n'),(11,'v'),(12,'f'),(13,'r'),(27,'e'),(34,'"'),(92,'\\'),(0x85,'N'),(0xA0,'_'),(0x2028,'L'),(0x2029,'P')))+f""" else {{ 0u8 }} }}
pub open spec fn ye1(c: int) -> Seq<u8> {{
  if yshort(c) != 0 {{ seq![92u8, yshort(c)] }} else if yprint(c) {{ enc(c) }}
  else if c < 0x100 {{ seq![92u8, 120u8, hexd(c / 16 % 16, true), hexd(c % 16, true)] }}
  else if c < 0x10000 {{ seq![92u8, 117u8, hexd(c / 4096 % 16, true), hexd(c / 256 % 16, true), hexd(c / 16 % 16, true), hexd(c % 16, true)] }}
  else {{ seq![92u8, 85u8, hexd(c / 0x10000000 % 16, true), hexd(c / 0x1000000 % 16, true), hexd(c / 0x100000 % 16, true), hexd(c / 0x10000 % 16, true), hexd(c / 4096 % 16, true), hexd(c / 256 % 16, true), hexd(c / 16 % 16, true), hexd(c % 16, true)] }} }}
// well-formed UTF-8 from i on
pub open spec fn wf8(s: Seq<u8>, i: int) -> bool decreases s.len() - i {{ if 0 <= i < s.len() {{ wflen(s, i) > 0 && i + wflen(s, i) <= s.len() && wf8(s, i + wflen(s, i)) }} else {{ true }} }}
pub open spec fn yesc(s: Seq<u8>, i: int) -> Seq<u8> decreases s.len() - i {{ if 0 <= i < s.len() && wflen(s, i) > 0 && i + wflen(s, i) <= s.len() {{ ye1(wfval(s, i, wflen(s, i))) + yesc(s, i + wflen(s, i)) }} else {{ Seq::empty() }} }}
pub open spec fn letter(c: u8) -> bool {{ 65 <= c <= 90 || 97 <= c <= 122 }}
pub open spec fn letters(s: Seq<u8>) -> bool {{ forall|i: int| 0 <= i < s.len() ==> letter(#[trigger] s[i]) }}
// plain scalars of the YAML core schema that are not strings
pub open spec fn yword(s: Seq<u8>) -> bool {{ """+' || '.join(f's =~= {q(w)}' for w in 'null Null NULL true True TRUE false False FALSE'.split())+f""" }}
pub open spec fn yquo(s: Seq<u8>) -> Seq<u8> {{ seq![34u8] + yesc(s, 0) + seq![34u8] }}
pub open spec fn ykey(s: Seq<u8>) -> Seq<u8> {{ if s.len() > 0 && letters(s) && !yword(s) {{ s }} else {{ yquo(s) }} }}
pub open spec fn sp(d: int) -> Seq<u8> {{ if d > 0 {{ seq![32u8] }} else {{ Seq::empty() }} }}
pub open spec fn nl(b: bool) -> Seq<u8> {{ if b {{ seq![10u8] }} else {{ Seq::empty() }} }}
pub open spec fn yv(v: V, d: int) -> Seq<u8> decreases v, 0int {{ match v {{
  V::Null(_) => sp(d) + {q('null')}, V::True(_) => sp(d) + {q('true')}, V::False(_) => sp(d) + {q('false')}, V::Number(x) => sp(d) + x.data, V::String(x) => sp(d) + yquo(x.data),
  V::Object(x) => if x.data.len() == 0 {{ sp(d) + seq![123u8, 125u8] }} else {{ nl(d > 0) + yms(x.data, 0, d) }},
  V::Array(x) => if x.data.len() == 0 {{ sp(d) + seq![91u8, 93u8] }} else {{ nl(d > 0) + yes(x.data, 0, d) }} }} }}
pub open spec fn yms(m: Seq<(Seq<u8>, V)>, i: int, d: int) -> Seq<u8> decreases m, m.len() - i {{
  if 0 <= i < m.len() {{ spaces(d) + ykey(m[i].0) + seq![58u8] + yv(m[i].1, d + 1) + nl(i + 1 < m.len()) + yms(m, i + 1, d) }} else {{ Seq::empty() }} }}
pub open spec fn yes(m: Seq<V>, i: int, d: int) -> Seq<u8> decreases m, m.len() - i {{
  if 0 <= i < m.len() {{ spaces(d) + seq![45u8] + yv(m[i], d + 1) + nl(i + 1 < m.len()) + yes(m, i + 1, d) }} else {{ Seq::empty() }} }}
// every string and key is well-formed UTF-8
pub open spec fn wfv(v: V) -> bool decreases v {{ match v {{
  V::Object(x) => forall|i: int| 0 <= i < x.data.len() ==> wf8((#[trigger] x.data[i]).0, 0) && wfv(x.data[i].1),
  V::Array(x) => forall|i: int| 0 <= i < x.data.len() ==> wfv(#[trigger] x.data[i]), V::String(x) => wf8(x.data, 0), _ => true }} }}
"""
UT=UTF8.replace('pub open spec fn wflen','#[verifier::opaque] pub open spec fn wflen').replace('pub open spec fn wfval','#[verifier::opaque] pub open spec fn wfval')
YREAD="""
pub open spec fn ylong(b: u8) -> int { """+' else '.join(f"if b == {ord(x)} {{ {c} }}" for c,x in ((0,'0'),(7,'a'),(8,'b'),(9,'t'),(9,'\t'),(10,'n'),(11,'v'),(12,'f'),(13,'r'),(27,'e'),(32,' '),(34,'"'),(47,'/'),(92,'\\'),(0x85,'N'),(0xA0,'_'),(0x2028,'L'),(0x2029,'P')))+""" else { -1 } }
pub open spec fn plain(b: u8) -> bool { b >= 32 && b != 34 && b != 92 }
// what a YAML reader makes of a double-quoted scalar on one line: the content up to the closing quote and where it ends
pub open spec fn yrd(t: Seq<u8>, i: int) -> Option<(Seq<u8>, int)> decreases t.len() - i {
  if i < 0 || i >= t.len() { None } else if t[i] == 34 { Some((Seq::empty(), i + 1)) } else if plain(t[i]) { pre_(seq![t[i]], yrd(t, i + 1)) }
  else if t[i] != 92 || i + 1 >= t.len() { None }
  else if ylong(t[i + 1]) >= 0 { pre_(enc(ylong(t[i + 1])), yrd(t, i + 2)) }
  else if t[i + 1] == 120 && hexs(t, i + 2, 2) >= 0 { pre_(enc(hexs(t, i + 2, 2)), yrd(t, i + 4)) }
  else if t[i + 1] == 117 && hexs(t, i + 2, 4) >= 0 && scalar(hexs(t, i + 2, 4)) { pre_(enc(hexs(t, i + 2, 4)), yrd(t, i + 6)) }
  else if t[i + 1] == 85 && hexs(t, i + 2, 8) >= 0 && scalar(hexs(t, i + 2, 8)) { pre_(enc(hexs(t, i + 2, 8)), yrd(t, i + 10)) } else { None } }
pub proof fn lem_utf(s: Seq<u8>, i: int) requires 0 <= i < s.len(), wflen(s, i) > 0
  ensures i + wflen(s, i) <= s.len(), scalar(wfval(s, i, wflen(s, i))), enc(wfval(s, i, wflen(s, i))) =~= s.subrange(i, i + wflen(s, i))
{ reveal(wflen); reveal(wfval); }
pub proof fn lem_copy(t: Seq<u8>, i: int, x: Seq<u8>) requires 0 <= i, i + x.len() <= t.len(), forall|j: int| 0 <= j < x.len() ==> t[i + j] == #[trigger] x[j] && plain(x[j])
  ensures yrd(t, i) == pre_(x, yrd(t, i + x.len())) decreases x.len()
{ if x.len() == 0 { match yrd(t, i) { Some(r) => { assert(x + r.0 =~= r.0); } None => {} } }
  else { let y = x.skip(1); assert(t[i] == x[0]); assert forall|j: int| 0 <= j < y.len() implies t[i + 1 + j] == #[trigger] y[j] && plain(y[j]) by { assert(y[j] == x[j + 1]); assert(t[i + (j + 1)] == x[j + 1]); }
    lem_copy(t, i + 1, y); match yrd(t, i + x.len()) { Some(r) => { assert(seq![x[0]] + (y + r.0) =~= x + r.0); } None => {} } } }
pub proof fn lem_hexs2(t: Seq<u8>, i: int) requires 0 <= i, i + 2 <= t.len()
  ensures hexs(t, i, 2) == (if hexv(t[i]) < 0 || hexv(t[i + 1]) < 0 { -1 } else { hexv(t[i]) * 16 + hexv(t[i + 1]) })
{ assert(hexs(t, i, 0) == 0); assert(hexs(t, i, 1) == hexv(t[i])); }
// one character: the reader gets its bytes and continues behind the escape
pub proof fn lem_char(t: Seq<u8>, k: int, c: int) requires scalar(c), 0 <= k, k + ye1(c).len() <= t.len(), forall|j: int| 0 <= j < ye1(c).len() ==> t[k + j] == #[trigger] ye1(c)[j]
  ensures yrd(t, k) == pre_(enc(c), yrd(t, k + ye1(c).len()))
{ let e = ye1(c);
  if yshort(c) != 0 { assert(t[k] == e[0]); assert(t[k + 1] == e[1]); assert(ylong(yshort(c)) == c); }
  else if yprint(c) { lem_copy(t, k, e); }
  else { assert(c < 0x10000); assert(t[k] == e[0]); assert(t[k + 1] == e[1]); assert(t[k + 2] == e[2]); assert(t[k + 3] == e[3]);
    if c < 0x100 { lem_hexs2(t, k + 2); assert(hexs(t, k + 2, 2) == c); }
    else { assert(t[k + 4] == e[4]); assert(t[k + 5] == e[5]); lem_hexs(t, k + 2); assert(hexs(t, k + 2, 4) == c); } } }
// the property for YAML: a reader recovers exactly the string, whatever surrounds it, and stops at the closing quote
pub proof fn c30_yaml(s: Seq<u8>, i: int, p: Seq<u8>, z: Seq<u8>) requires 0 <= i <= s.len(), wf8(s, i)
  ensures yrd(p + yesc(s, i) + seq![34u8] + z, p.len() as int) == Some((s.skip(i), (p + yesc(s, i)).len() as int + 1)) decreases s.len() - i
{ let t = p + yesc(s, i) + seq![34u8] + z; let k = p.len() as int;
  if i >= s.len() { assert(yesc(s, i).len() == 0); assert(t[k] == 34); assert(s.skip(i) =~= Seq::<u8>::empty()); }
  else {
    lem_utf(s, i); let n = wflen(s, i); let c = wfval(s, i, n); let e = ye1(c); let q = p + e; let r = yesc(s, i + n);
    assert(yesc(s, i) == e + r); assert(p + (e + r) =~= q + r); assert(t =~= q + r + seq![34u8] + z);
    c30_yaml(s, i + n, q, z);
    assert forall|j: int| 0 <= j < e.len() implies t[k + j] == #[trigger] e[j] by {}
    lem_char(t, k, c);
    assert(s.skip(i) =~= s.subrange(i, i + n) + s.skip(i + n));
  } }
"""
LIB=UT+c02.ENC+JSON+READ+YAML+YREAD
NS='(anonymous namespace)::'
def vinv(pk):
    l=[]
    for K,fn,ch in(('Object','jms',123),('Array','jes',91)):
        D=f'obj->{K}_0.data'
        l+=[f'obj is {K} ==> {{o:Seq<u8>}} + {fn}({D}, {{k:it}}, {pk}, indent as int) =~= out + seq![{ch}u8] + {fn}({D}, 0, {pk}, indent as int)',
            f'obj is {K} ==> ({{k:it}} < {D}.len() ==> {{c:i32}} == {D}.len() - 1 - {{k:it}})',
            # the separator in front of every item but the first
            f'obj is {K} ==> {{o:Seq<u8>}} + (if 0 < {{k:it}} < {D}.len() {{ seq![44u8] }} else {{ Seq::empty() }}) + {fn}({D}, {{k:it}}, {pk}, indent as int) =~= out + seq![{ch}u8] + {fn}({D}, 0, {pk}, indent as int)']
    return l+FIRST
FIRST=['{b:bool} == ({k:it} == 0)','{b:bool} == ({k:it} != 0)']
import copy
DECY=copy.copy(DEC); DECY.size_req=False; DECY.hints=['reveal(wflen); reveal(wfval);']
DECY.ensures=DEC.ensures+['ret.0 == 0xFFFFFFFF <==> first == last','ret.0 == 0xFFFFFFFF || scalar(ret.0 as int)']
ENCY=copy.copy(c02.CONTRACTS[0]); ENCY.size_req=False
CONTRACTS=[
 C('escape_json',NS+'escape_json_string',['b@s','e@s','out@t'],requires=['0 <= b <= e'],ensures=['t_out =~= t + jesc(s.take(e), b)','e == s.len() ==> t_out =~= t + jesc(s, b)'],endhints=['if e == s.len() { assert(s.take(e) =~= s); }'],ret='@t',size_req=False,
   invs=['{o:Seq<u8>} + jesc(s.take(e), {k:it}) =~= t + jesc(s.take(e), b)']),
 C('break_indent',NS+'break_indent',['out','indent'],ensures=['out_out =~= out + seq![10u8] + spaces(indent as int)'],ret='=out',size_req=False,
   invs=['{o:Seq<u8>} + spaces({n:i32} as int) =~= out + seq![10u8] + spaces(indent as int)','{o:Seq<u8>} + spaces(indent - {n:i32}) =~= out + seq![10u8] + spaces(indent as int)','indent >= 0 ==> {n:i32} <= indent']),
 C('visitP',NS+'visit',['obj','out','indent'],sig=lambda f: bool(f.ta) and f.ta[0]==1,requires=['fits(obj, indent as int)'],ensures=['out_out =~= out + jv(obj, true, indent as int)'],dec='obj',size_req=False,invs=vinv('true')),
 C('visitI',NS+'visit',['obj','out','indent'],sig=lambda f: bool(f.ta) and f.ta[0]==0,requires=['fits(obj, indent as int)'],ensures=['out_out =~= out + jv(obj, false, indent as int)'],dec='obj',size_req=False,invs=vinv('false')),
 C('serialize_json','drafter::utils::so::serialize_json',['out','obj'],sig=lambda f: len(f.pt)==2,requires=['fits(obj, 0)'],ensures=['out_out =~= out + jv(obj, false, 0)'],ret='=out',size_req=False),
 C('serialize_packed','drafter::utils::so::serialize_json',['out','obj','packed:skip'],sig=lambda f: len(f.pt)==3,requires=['fits(obj, 0)'],ensures=['out_out =~= out + jv(obj, true, 0)'],ret='=out',size_req=False),

 DECY,c02.CONTRACTS[0] if False else ENCY,
 C('alpha',NS+'is_alphanum_dash',['str'],ensures=['ret == letters(str)'],size_req=False,invs=['forall|i: int| 0 <= i < {k:it} ==> letter(#[trigger] str[i])']),
 C('escaped',NS+'serialize_escaped',['c','out@t'],requires=['scalar(c as int)'],ensures=['!yprint(c as int) && yshort(c as int) == 0 ==> t_out =~= t + ye1(c as int)'],ret='@t',size_req=False),
 C('escape_yaml',NS+'escape_yaml_string',['b@s','e@s','out@t'],requires=['0 <= b <= e'],ensures=['e == s.len() && wf8(s, b) ==> t_out =~= t + yesc(s, b)'],ret='@t',size_req=False,
   hints=['assert(s.take(s.len() as int) =~= s);'],loophints=['assert(s.take(s.len() as int) =~= s);'],
   invs=['{q:it} <= e','{v:u32} == 0xFFFFFFFF ==> {q:it} == e','{v:u32} == 0xFFFFFFFF || scalar({v:u32} as int)','e == s.len() && wf8(s, b) ==> wf8(s, {q:it})','e == s.len() && wf8(s, b) ==> {o:Seq<u8>} + (if {v:u32} == 0xFFFFFFFF { Seq::empty() } else { ye1({v:u32} as int) + yesc(s, {q:it}) }) =~= t + yesc(s, b)'],
   measure=['2 * (e - {q:it}) + if {v:u32} == 0xFFFFFFFF { 0int } else { 1 }']),
 C('quoted',NS+'serialize_yaml',['out','obj'],ensures=['wf8(obj, 0) ==> out_out =~= out + yquo(obj)'],ret='=out',size_req=False),
 C('do_indent',NS+'do_indent',['out','indent'],requires=['indent >= 0'],ensures=['out_out =~= out + spaces(indent as int)'],ret='=out',size_req=False,invs=['{n:i32} >= 0','{o:Seq<u8>} + spaces({n:i32} as int) =~= out + spaces(indent as int)','{o:Seq<u8>} + spaces(indent - {n:i32}) =~= out + spaces(indent as int)','{n:i32} <= indent']),
 C('visitY',NS+'visit',['obj','out','indent'],sig=lambda f: not f.ta,requires=['fits(obj, indent as int)'],ensures=['wfv(obj) ==> out_out =~= out + yv(obj, indent as int)'],dec='obj',size_req=False,
   loophints=['if obj is Object && 0 <= {k:it} < obj->Object_0.data.len() { let m = obj->Object_0.data; let k = {k:it}; assert(wfv(obj) ==> wf8(m[k].0, 0) && wfv(m[k].1)); assert(yms(m, k, indent as int) == spaces(indent as int) + ykey(m[k].0) + seq![58u8] + yv(m[k].1, indent + 1) + nl(k + 1 < m.len()) + yms(m, k + 1, indent as int)); }'],
   invs=[x for K,fn in(('Object','yms'),('Array','yes')) for D in [f'obj->{K}_0.data'] for x in (
     f'obj is {K} && wfv(obj) ==> {{o:Seq<u8>}} + {fn}({D}, {{k:it}}, indent as int) =~= out + nl(indent > 0) + {fn}({D}, 0, indent as int)',
     f'obj is {K} ==> ({{k:it}} < {D}.len() ==> {{c:i32}} == {D}.len() - 1 - {{k:it}})',
     f'obj is {K} && wfv(obj) ==> {{o:Seq<u8>}} + nl(0 < {{k:it}} < {D}.len()) + {fn}({D}, {{k:it}}, indent as int) =~= out + nl(indent > 0) + {fn}({D}, 0, indent as int)')]+FIRST),
 C('serialize_yaml','drafter::utils::so::serialize_yaml',['out','obj'],requires=['fits(obj, 0)'],ensures=['wfv(obj) ==> out_out =~= out + yv(obj, 0)'],ret='=out',size_req=False),
]
