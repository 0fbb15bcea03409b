"""C07: mapping a byte range set onto a buffer"""
from vx.engine import Contract as C
ID='C07'
TUS=['packages/apib-parser/src/markdown-parser/ByteBuffer.cc']
LIB='''
// the property: the ranges from number i on, onto what is already selected
pub open spec fn sel(rs: Seq<S_mdp_Range>, b: Seq<u8>, i: int, acc: Seq<u8>) -> Seq<u8> decreases rs.len() - i {
    if i < 0 || i >= rs.len() { acc }
    else if rs[i].location + rs[i].length <= b.len() { sel(rs, b, i + 1, acc + b.subrange(rs[i].location as int, rs[i].location + rs[i].length)) }
    else if rs[i].location <= b.len() && rs[i].location + rs[i].length == b.len() + 1 { acc + b.skip(rs[i].location as int) }
    else { Seq::empty() } }
'''
CONTRACTS=[C('MapBytesRangeSet','mdp::MapBytesRangeSet',['rs','b'],
   ensures=['b.len() > 0 ==> ret =~= sel(rs, b, 0, Seq::empty())','b.len() == 0 ==> ret.len() == 0'],
   invs=['sel(rs, b, {i:it}, {o:Seq<u8>}) =~= sel(rs, b, 0, Seq::empty())'])]
