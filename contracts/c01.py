"""C01: UTF-8 decoding"""
from vx.engine import Contract as C
ID='C01'
TUS=['packages/drafter/src/SourceMapUtils.cc']
UTF8='''
pub open spec fn cont(b: u8) -> bool { 0x80 <= b < 0xC0 }
// well-formed UTF-8 (Unicode table 3-7): length of the well-formed sequence starting at i, 0 if there is none
pub open spec fn wflen(s: Seq<u8>, i: int) -> int {
    if s[i] < 0x80 { 1 }
    else if 0xC2 <= s[i] < 0xE0 && i + 1 < s.len() && cont(s[i + 1]) { 2 }
    else if 0xE0 <= s[i] < 0xF0 && i + 2 < s.len() && cont(s[i + 1]) && cont(s[i + 2]) && (s[i] == 0xE0 ==> s[i + 1] >= 0xA0) && (s[i] == 0xED ==> s[i + 1] < 0xA0) { 3 }
    else if 0xF0 <= s[i] <= 0xF4 && i + 3 < s.len() && cont(s[i + 1]) && cont(s[i + 2]) && cont(s[i + 3]) && (s[i] == 0xF0 ==> s[i + 1] >= 0x90) && (s[i] == 0xF4 ==> s[i + 1] < 0x90) { 4 }
    else { 0 } }
// the scalar value encoded by a well-formed sequence of length n at i
pub open spec fn wfval(s: Seq<u8>, i: int, n: int) -> int {
    if n == 1 { s[i] as int }
    else if n == 2 { (s[i] - 0xC0) * 64 + (s[i + 1] - 0x80) }
    else if n == 3 { (s[i] - 0xE0) * 4096 + (s[i + 1] - 0x80) * 64 + (s[i + 2] - 0x80) }
    else { (s[i] - 0xF0) * 262144 + (s[i + 1] - 0x80) * 4096 + (s[i + 2] - 0x80) * 64 + (s[i + 3] - 0x80) } }
'''
LIB=UTF8+'''
'''
DEC=C('decode_one','drafter::utils::utf8::decode_one',['first@s','last@s'],requires=['first <= last'],ret='@s',
  ensures=['first == last ==> ret.0 == 0xFFFFFFFF && ret.1 == last',
           'first < last ==> first < ret.1 <= last',
           'first < last && wflen(s.take(last), first) > 0 ==> ret.0 == wfval(s.take(last), first, wflen(s.take(last), first)) && ret.1 == first + wflen(s.take(last), first)',
           'first < last && wflen(s.take(last), first) == 0 ==> ret.0 == 0xFFFD'])
CONTRACTS=[DEC]
