"""C05: byte ranges to character ranges"""
from vx.engine import Contract as C
from contracts.bytes import LIB as BYTES
ID='C05'
TUS=['packages/apib-parser/src/markdown-parser/ByteBuffer.cc']
LIB=BYTES+'''
pub open spec fn mk(l: int, n: int) -> S_mdp_Range { S_mdp_Range { location: l as u64, length: n as u64 } }
// the part of a range that lies in a buffer of n bytes
pub open spec fn lo(r: S_mdp_Range, n: int) -> int { mini(r.location as int, n) }
pub open spec fn hi(r: S_mdp_Range, n: int) -> int { mini(r.location + r.length, n) }
// the property, direct conversion: characters before the range, and characters from its start on
pub open spec fn conv(r: S_mdp_Range, s: Seq<u8>) -> S_mdp_Range { mk(nch(s, 0, lo(r, s.len() as int)), nch(s, lo(r, s.len() as int), hi(r, s.len() as int))) }
// the property, indexed conversion: entry i of the index is the ordinal of the character of byte i (one past the last at the end)
pub open spec fn at(x: Seq<u64>, i: int) -> int { if i < x.len() { if i == 0 { 0 } else { x[i] as int } } else { x.last() + 1 } }
pub open spec fn m64(a: int) -> int { a % 0x1_0000_0000_0000_0000 }
pub open spec fn convx(r: S_mdp_Range, x: Seq<u64>) -> S_mdp_Range { let n = x.len() as int;
  if n == 0 { mk(0, 0) } else { mk(m64(at(x, lo(r, n))), if hi(r, n) > lo(r, n) { m64(at(x, hi(r, n)) - m64(at(x, lo(r, n)))) } else { 0 }) } }
// the property for an index built from the text (C06): both conversions agree on ranges between character boundaries
pub open spec fn bnd(s: Seq<u8>, p: int, q: int) -> bool decreases clip(q - p) { p == q || (0 <= p < q <= s.len() && s[p] != 0 && bnd(s, p + clen(s[p]), q)) }
pub proof fn c05_walk(s: Seq<u8>, p: int, q: int, c: int) requires 0 <= p <= q <= s.len(), bnd(s, p, q), 0 <= c, c + s.len() - p <= szmax()
  ensures ords(s, p, c).len() >= q - p, 0 <= nch(s, p, q) <= q - p,
    q < s.len() && s[q] != 0 ==> ords(s, p, c).len() > q - p && ords(s, p, c)[q - p] == c + nch(s, p, q),
    q > p ==> ords(s, p, c)[q - p - 1] == c + nch(s, p, q) - 1 decreases q - p
{ if p < q {
    let n = clen(s[p]);
    assert(bnd(s, p + n, q)); assert(p + n <= q);
    c05_walk(s, p + n, q, c + 1);
    let r = ords(s, p + n, c + 1);
    assert(ords(s, p, c) =~= Seq::new(n as nat, |i: int| c as u64) + r);
    if q > p + n { assert(ords(s, p, c)[q - p - 1] == r[q - p - n - 1]); }
    if q < s.len() && s[q] != 0 { assert(ords(s, p, c)[q - p] == r[q - p - n]); }
  } }
pub proof fn c05_add(s: Seq<u8>, p: int, q: int, e: int) requires 0 <= p <= q <= e <= s.len(), bnd(s, p, q) ensures nch(s, p, q) + nch(s, q, e) == nch(s, p, e) decreases q - p
{ if p < q { assert(bnd(s, p + clen(s[p]), q)); if p + clen(s[p]) <= q { c05_add(s, p + clen(s[p]), q, e); } } }
pub proof fn c05_agree(s: Seq<u8>, x: Seq<u64>, r: S_mdp_Range)
  requires s.len() <= szmax(), x.len() == s.len(), x =~= ords(s, 0, 0), ({ let n = s.len() as int; bnd(s, 0, lo(r, n)) && bnd(s, lo(r, n), hi(r, n)) && bnd(s, 0, n) && forall|i: int| 0 <= i < n ==> s[i] != 0 })
  ensures convx(r, x) == conv(r, s)
{ let n = s.len() as int; let a = lo(r, n); let b = hi(r, n);
  if n > 0 { c05_walk(s, 0, a, 0); c05_walk(s, a, b, 0); c05_add(s, 0, a, b); c05_bnd(s, 0, a, b); c05_walk(s, 0, b, 0); } }
pub proof fn c05_bnd(s: Seq<u8>, p: int, q: int, e: int) requires 0 <= p <= q <= e <= s.len(), bnd(s, p, q), bnd(s, q, e) ensures bnd(s, p, e) decreases q - p
{ if p < q { assert(bnd(s, p + clen(s[p]), q)); assert(p + clen(s[p]) <= q); c05_bnd(s, p + clen(s[p]), q, e); } }
'''
N=['{j:int} + nch(byteBuffer, {i:int}, {e:=int}) == nch(byteBuffer, 0, {e:=int})',
   '{j:int} + nch(byteBuffer, {p:=int} + {i:int}, {p:=int} + {n:=int}) == nch(byteBuffer, {p:=int}, {p:=int} + {n:=int})',
   '{j:int} <= {i:int}']
CONTRACTS=[
 C('direct','mdp::BytesRangeSetToCharactersRangeSet',['rs','byteBuffer'],sig=lambda f:'basic_string' in (f.pt[1].to.n or ''),
   ensures=['ret.len() == rs.len()','forall|i: int| 0 <= i < rs.len() ==> #[trigger] ret[i] == conv(rs[i], byteBuffer)'],
   invs=['{o:Seq<S_mdp_Range>}.len() == {k:it}','forall|i: int| 0 <= i < {k:it} ==> #[trigger] {o:Seq<S_mdp_Range>}[i] == conv(rs[i], byteBuffer)','{o:Seq<S_mdp_Range>}.len() == {k:int}','forall|i: int| 0 <= i < {k:int} ==> #[trigger] {o:Seq<S_mdp_Range>}[i] == conv(rs[i], byteBuffer)']+N),
 C('indexed','mdp::BytesRangeSetToCharactersRangeSet',['rs','index'],sig=lambda f:'vector' in (f.pt[1].to.n or ''),
   ensures=['ret.len() == rs.len()','forall|i: int| 0 <= i < rs.len() ==> #[trigger] ret[i] == convx(rs[i], index)'],
   invs=['{o:Seq<S_mdp_Range>}.len() == {k:it}','forall|i: int| 0 <= i < {k:it} ==> #[trigger] {o:Seq<S_mdp_Range>}[i] == convx(rs[i], index)','{o:Seq<S_mdp_Range>}.len() == {k:int}','forall|i: int| 0 <= i < {k:int} ==> #[trigger] {o:Seq<S_mdp_Range>}[i] == convx(rs[i], index)']),
]
