"""shared specification of characters in byte buffers"""
LIB='''
// nominal length of the character introduced by a byte (lead byte classes of UTF-8)
pub open spec fn clen(b: u8) -> int { if b < 0xC0 { 1 } else if b < 0xE0 { 2 } else if b < 0xF0 { 3 } else { 4 } }
pub open spec fn mini(a: int, b: int) -> int { if a < b { a } else { b } }
// ordinals of the characters the bytes from p on belong to (up to the first NUL), the character at p being number c
pub open spec fn ords(s: Seq<u8>, p: int, c: int) -> Seq<u64> decreases s.len() - p
{ if p < 0 || p >= s.len() || s[p] == 0 { Seq::empty() } else { Seq::new(mini(clen(s[p]), s.len() - p) as nat, |i: int| c as u64) + ords(s, p + mini(clen(s[p]), s.len() - p), c + 1) } }
// number of characters starting in [p, e) of s (up to the first NUL), p being a character start
pub open spec fn nch(s: Seq<u8>, p: int, e: int) -> int decreases clip(e - p)
{ if p < 0 || p >= e || e > s.len() || s[p] == 0 { 0 } else { 1 + nch(s, p + clen(s[p]), e) } }
'''
