"""C03: line index"""
from vx.engine import Contract as C
from contracts.c01 import UTF8, DEC
ID='C03'
TUS=['packages/drafter/src/SourceMapUtils.cc']
LIB=UTF8+'''
// the character the decoder delivers at p of s and where it continues (decode_one is a function of its arguments)
pub uninterp spec fn dval(s: Seq<u8>, p: int, e: int) -> u32;
pub uninterp spec fn dnext(s: Seq<u8>, p: int, e: int) -> int;
// the property: with value v decoded, the decoder at q and this being character number i (1-based), the characters up to and including each further line feed
pub open spec fn lfs(s: Seq<u8>, v: u32, q: int, i: int) -> Seq<u64> decreases 2 * (s.len() - q) + if v == 0xFFFFFFFF { 0int } else { 1 }
{ if v == 0xFFFFFFFF || !(0 <= q <= s.len()) || !(q <= dnext(s, q, s.len() as int) <= s.len()) || (q == s.len() && dval(s, q, s.len() as int) != 0xFFFFFFFF) || (q < s.len() && q == dnext(s, q, s.len() as int)) { Seq::empty() }
  else { (if v == 10 { seq![i as u64] } else { Seq::empty() }) + lfs(s, dval(s, q, s.len() as int), dnext(s, q, s.len() as int), i + 1) } }
pub open spec fn line_index(s: Seq<u8>) -> Seq<u64> { seq![0u64] + lfs(s, dval(s, 0, s.len() as int), dnext(s, 0, s.len() as int), 1) }
'''
import copy
D=copy.copy(DEC)
D.ensures=DEC.ensures+['ret.0 == 0xFFFFFFFF <==> first == last','first == last ==> ret.1 == last']
D.axioms=['ret.0 == dval(s, first, last)','ret.1 == dnext(s, first, last)']
CONTRACTS=[D,
 C('GetLinesEndIndex','drafter::GetLinesEndIndex',['source'],ensures=['ret =~= line_index(source)'],
   invs=['{o:Seq<u64>} + lfs(source, {v:u32}, {q:it}, {i:int}) =~= line_index(source)','{o:Seq<u64>} + lfs(source, {v:u32}, {q:it}, {i:int} + 1) =~= line_index(source)','{v:u32} != 0xFFFFFFFF ==> {i:int} + 1 <= {q:it}','{i:int} <= {q:it} + 1','{v:u32} == 0xFFFFFFFF ==> {q:it} == source.len()','{v:u32} != 0xFFFFFFFF ==> {i:int} <= {q:it}'],
   measure=['2 * (source.len() - {q:it}) + if {v:u32} == 0xFFFFFFFF { 0int } else { 1 }'])]
