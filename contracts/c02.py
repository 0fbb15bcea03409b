"""C02: UTF-8 encoding"""
from vx.engine import Contract as C
from contracts.c01 import UTF8
ID='C02'
TUS=['tus/utf8.cc']
ENC='''
pub open spec fn scalar(c: int) -> bool { 0 <= c < 0xD800 || 0xE000 <= c < 0x110000 }
// the shortest form prescribed by the Unicode standard (table 3-6)
pub open spec fn enc(c: int) -> Seq<u8> {
    if c < 0x80 { seq![c as u8] }
    else if c < 0x800 { seq![(0xC0 + c / 64) as u8, (0x80 + c % 64) as u8] }
    else if c < 0x10000 { seq![(0xE0 + c / 4096) as u8, (0x80 + c / 64 % 64) as u8, (0x80 + c % 64) as u8] }
    else { seq![(0xF0 + c / 262144) as u8, (0x80 + c / 4096 % 64) as u8, (0x80 + c / 64 % 64) as u8, (0x80 + c % 64) as u8] } }
'''
LIB=UTF8+ENC+'''
// the property: what is appended decodes, whatever follows, to the same value and exactly these bytes
pub proof fn c02_inverse(c: int, pre: Seq<u8>, post: Seq<u8>) requires scalar(c)
  ensures ({ let s = pre + enc(c) + post; let i = pre.len() as int; wflen(s, i) == enc(c).len() && wfval(s, i, enc(c).len() as int) == c })
{ let s = pre + enc(c) + post; let i = pre.len() as int;
  assert(s[i] == enc(c)[0]);
  if enc(c).len() > 1 { assert(s[i + 1] == enc(c)[1]); }
  if enc(c).len() > 2 { assert(s[i + 2] == enc(c)[2]); }
  if enc(c).len() > 3 { assert(s[i + 3] == enc(c)[3]); } }
'''
CONTRACTS=[C('encode','drafter::utils::utf8::encode',['c','out@s'],requires=['scalar(c as int)'],ensures=['s_out =~= s + enc(c as int)'],ret='@s')]
