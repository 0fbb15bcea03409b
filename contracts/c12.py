"""C12: cardinality arithmetic"""
from vx.engine import Contract as C
ID='C12'
TUS=['packages/drafter/src/refract/ElementSize.cc']
LIB='''
pub open spec fn OPEN() -> int { 4294967295 }
pub open spec fn sat(n: int) -> int { if n >= OPEN() { OPEN() } else { n } }
pub open spec fn cadd(a: int, b: int) -> int { if a == OPEN() || b == OPEN() { OPEN() } else { sat(a + b) } }
pub open spec fn cmul(a: int, b: int) -> int { if a == 0 || b == 0 { 0 } else if a == OPEN() || b == OPEN() { OPEN() } else { sat(a * b) } }
pub proof fn lem_div(a: int, b: int) requires a >= 0, b >= 0 ensures b > 0 ==> ((a > OPEN() / b) <==> (a * b > OPEN())), a > 0 ==> ((b > OPEN() / a) <==> (a * b > OPEN())), a * b == b * a, 0 <= a * b
{
  assert(a * b == b * a) by (nonlinear_arith);
  assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0;
  if b > 0 { let q = OPEN() / b; assert(OPEN() == q * b + OPEN() % b) by (nonlinear_arith) requires b > 0, q == OPEN() / b;
    assert(0 <= OPEN() % b < b);
    if a > q { assert(a * b >= (q + 1) * b) by (nonlinear_arith) requires a >= q + 1, b > 0; assert((q + 1) * b == q * b + b) by (nonlinear_arith); }
    else { assert(a * b <= q * b) by (nonlinear_arith) requires a <= q, b > 0; } }
  if a > 0 { let q = OPEN() / a; assert(OPEN() == q * a + OPEN() % a) by (nonlinear_arith) requires a > 0, q == OPEN() / a;
    assert(0 <= OPEN() % a < a);
    if b > q { assert(a * b >= a * (q + 1)) by (nonlinear_arith) requires b >= q + 1, a > 0; assert(a * (q + 1) == q * a + a) by (nonlinear_arith); }
    else { assert(a * b <= a * q) by (nonlinear_arith) requires b <= q, a > 0; assert(a * q == q * a) by (nonlinear_arith); } }
}
// the property as lemmas over the contracts
pub proof fn c12_commutative(a: u32, b: u32) ensures cadd(a as int, b as int) == cadd(b as int, a as int), cmul(a as int, b as int) == cmul(b as int, a as int)
{ assert(a as int * b as int == b as int * a as int) by (nonlinear_arith); }
pub proof fn c12_nonzero(a: u32, b: u32) ensures a != 0 && b != 0 ==> cmul(a as int, b as int) != 0, (a != 0 || b != 0) ==> cadd(a as int, b as int) != 0
{ if a != 0 && b != 0 { assert(a as int * b as int >= 1) by (nonlinear_arith) requires a >= 1, b >= 1; } }
pub proof fn c12_monotone(a: u32, b: u32, c: u32) requires a <= b ensures cadd(a as int, c as int) <= cadd(b as int, c as int), cmul(a as int, c as int) <= cmul(b as int, c as int)
{ assert(a as int * c as int <= b as int * c as int) by (nonlinear_arith) requires a <= b, c >= 0;
  if a != 0 && c != 0 { assert(a as int * c as int >= 1) by (nonlinear_arith) requires a >= 1, c >= 1; } }
'''
T='S_refract_cardinal'
CONTRACTS=[
 C('card_eq','refract::operator==',['lhs','rhs'],ensures=['ret == (lhs.data_ == rhs.data_)'],sig=lambda f: len(f.pt)==2 and 'cardinal' in f.pt[0].s and 'cardinal' in f.pt[1].s),
 C('card_ne','refract::operator!=',['lhs','rhs'],ensures=['ret == (lhs.data_ != rhs.data_)'],sig=lambda f: len(f.pt)==2 and 'cardinal' in f.pt[0].s and 'cardinal' in f.pt[1].s),
 C('card_finite','refract::finite',['a'],ensures=['ret == (a.data_ != OPEN())']),
 C('card_open','refract::cardinal::open',[],ensures=['ret.data_ == OPEN()']),
 C('card_empty','refract::cardinal::empty',[],ensures=['ret.data_ == 0']),
 C('card_data','refract::cardinal::data',['this'],ensures=['ret == this_.data_']),
 C('card_add','refract::operator+',['lhs','rhs'],ensures=['ret.data_ as int == cadd(lhs.data_ as int, rhs.data_ as int)'],sig=lambda f: 'cardinal' in f.pt[0].s),
 C('card_mul','refract::operator*',['lhs','rhs'],ensures=['ret.data_ as int == cmul(lhs.data_ as int, rhs.data_ as int)'],hints=['lem_div(lhs.data_ as int, rhs.data_ as int);'],sig=lambda f: len(f.pt)==2 and 'cardinal' in f.pt[0].s),
]
CONTRACTS[5].params=['this_']
