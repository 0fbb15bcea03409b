"""C08: RangeSet::append"""
from vx.engine import Contract as C
ID='C08'
TUS=['tus/rangeset.cc']
LIB='''
pub open spec fn rend(r: S_mdp_Range) -> int { r.location + r.length }
pub open spec fn adjacent(a: Seq<S_mdp_Range>, b: Seq<S_mdp_Range>) -> bool { a.len() > 0 && b.len() > 0 && b[0].location == rend(a.last()) }
pub open spec fn rs_append(a: Seq<S_mdp_Range>, b: Seq<S_mdp_Range>) -> Seq<S_mdp_Range> {
    if adjacent(a, b) { a.drop_last().push(S_mdp_Range { location: a.last().location, length: (a.last().length + b[0].length) as u64 }) + b.skip(1) } else { a + b } }
pub open spec fn fits(s: Seq<S_mdp_Range>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] rend(s[i]) < 0x1_0000_0000_0000_0000 }
// the property: covered positions, in order
pub open spec fn cover(s: Seq<S_mdp_Range>) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cover(s.drop_last()) + Seq::new(s.last().length as nat, |i: int| s.last().location + i) } }
pub proof fn cover_cat(a: Seq<S_mdp_Range>, b: Seq<S_mdp_Range>) ensures cover(a + b) =~= cover(a) + cover(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); cover_cat(a, b.drop_last()); } }
pub proof fn c08_cover(a: Seq<S_mdp_Range>, b: Seq<S_mdp_Range>) requires fits(a), fits(b) ensures cover(rs_append(a, b)) =~= cover(a) + cover(b)
{
  cover_cat(a, b);
  if adjacent(a, b) {
    let m = S_mdp_Range { location: a.last().location, length: (a.last().length + b[0].length) as u64 };
    assert(rend(b[0]) < 0x1_0000_0000_0000_0000);
    let x = a.drop_last().push(m);
    assert(x.drop_last() =~= a.drop_last());
    cover_cat(x, b.skip(1));
    assert(b =~= seq![b[0]] + b.skip(1)); cover_cat(seq![b[0]], b.skip(1));
    assert(seq![b[0]].drop_last() =~= Seq::empty());
    reveal_with_fuel(cover, 3);
    assert(cover(seq![b[0]]) =~= Seq::new(b[0].length as nat, |i: int| b[0].location + i));
    assert(cover(x) =~= cover(a) + Seq::new(b[0].length as nat, |i: int| b[0].location + i));
  }
}
'''
CONTRACTS=[
 C('append','mdp::RangeSet::append',['this_','val'],requires=['fits(this_)','fits(val)'],ensures=['this__out =~= rs_append(this_, val)'],
   hints=['assert(val.len() > 0 ==> rend(val[0]) < 0x1_0000_0000_0000_0000);','assert(this_.len() > 0 ==> rend(this_.last()) < 0x1_0000_0000_0000_0000);','assert(val.len() == 1 ==> val.skip(1) =~= Seq::empty());']),
]
