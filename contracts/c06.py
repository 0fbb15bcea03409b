"""C06: character index of a byte buffer"""
from vx.engine import Contract as C
from contracts import bytes as B
ID='C06'
TUS=['packages/apib-parser/src/markdown-parser/ByteBuffer.cc']
LIB=B.LIB+'''
// the property: ordinals start at c, never decrease and grow by at most one per byte, increasing exactly at character starts
pub open spec fn cstart(s: Seq<u8>, p: int, i: int) -> bool decreases clip(i - p) { if i <= p { i == p } else if p >= s.len() || s[p] == 0 { false } else { cstart(s, p + mini(clen(s[p]), s.len() - p), i) } }
pub proof fn c06_ords(s: Seq<u8>, p: int, c: int) requires 0 <= p <= s.len(), 0 <= c, c + s.len() - p < 0x8000_0000_0000_0000
  ensures ({ let o = ords(s, p, c); p + o.len() <= s.len() && (o.len() > 0 ==> o[0] == c)
    && (forall|i: int| 0 <= i < o.len() ==> c <= #[trigger] o[i] <= c + i)
    && (forall|i: int| 0 < i < o.len() ==> #[trigger] o[i] == o[i - 1] + if cstart(s, p, p + i) { 1int } else { 0 }) })
  decreases s.len() - p
{
  if p < s.len() && s[p] != 0 {
    let n = mini(clen(s[p]), s.len() - p);
    c06_ords(s, p + n, c + 1);
    let o = ords(s, p, c); let r = ords(s, p + n, c + 1);
    assert(forall|i: int| 0 <= i < n ==> o[i] == c);
    assert(forall|i: int| n <= i < o.len() ==> o[i] == r[i - n]);
    assert forall|i: int| 0 < i < o.len() implies #[trigger] o[i] == o[i - 1] + (if cstart(s, p, p + i) { 1int } else { 0 }) by {
      if i < n { assert(!cstart(s, p + n, p + i)); }
      else if i == n { assert(cstart(s, p + n, p + i)); assert(r.len() > 0); }
      else { assert(r[i - n] == o[i]); assert(r[i - n - 1] == o[i - 1]); assert(cstart(s, p, p + i) == cstart(s, p + n, (p + n) + (i - n))); }
    }
  }
}
'''
CONTRACTS=[C('BuildCharacterIndex','mdp::BuildCharacterIndex',['index','s'],
  ensures=['index_out.len() == s.len()','index_out.take(ords(s, 0, 0).len() as int) =~= ords(s, 0, 0)'],
  hints=['c06_ords(s, 0, 0);'],
  invs=['{x:Seq<u64>}.len() == s.len()','{c:int} <= {p:=int}','{p:=int} <= s.len()',
   '{x:Seq<u64>}.take({p:=int}) + ords(s, {p:=int}, {c:int}) =~= ords(s, 0, 0)',
   '{k:int} <= {p:=int} <= s.len()','{x:Seq<u64>}.take({k:int}) + Seq::new(({p:=int} - {k:int}) as nat, |i: int| {c:=int} as u64) + ords(s, {p:=int}, {c:=int} + 1) =~= ords(s, 0, 0)',
   '{x:Seq<u64>}.take({p:=int} - {k:int}) + Seq::new({k:int} as nat, |i: int| {c:=int} as u64) + ords(s, {p:=int}, {c:=int} + 1) =~= ords(s, 0, 0)',
   '{x:Seq<u64>}.take({p:=int}) + Seq::new({k:int} as nat, |i: int| {c:=int} as u64) + ords(s, {p:=int} + {k:int}, {c:=int} + 1) =~= ords(s, 0, 0)'])]
