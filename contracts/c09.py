"""C09: media type classification"""
from vx.engine import Contract as C
ID='C09'
TUS=['packages/apib/src/MediaType.cc']
MT='S_apib_syntax_media_type'
LIB='''
pub open spec fn low(b: int) -> int { if 65 <= b <= 90 { b + 32 } else { b } }
// ASCII case-insensitive equality of full strings
pub open spec fn ieq(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == b.len() && forall|j: int| #![trigger a[j]] 0 <= j < a.len() ==> low(a[j] as int) == low(b[j] as int) }
pub open spec fn APPLICATION() -> Seq<u8> { seq![97u8, 112u8, 112u8, 108u8, 105u8, 99u8, 97u8, 116u8, 105u8, 111u8, 110u8] }
pub open spec fn JSON() -> Seq<u8> { seq![106u8, 115u8, 111u8, 110u8] }
pub open spec fn SCHEMA() -> Seq<u8> { seq![115u8, 99u8, 104u8, 101u8, 109u8, 97u8] }
pub open spec fn syntax_of(t: S_apib_syntax_media_type) -> Seq<u8> { if t.suffix.len() == 0 { t.subtype } else { t.suffix } }
'''
SZ=['t.type_.len() <= szmax()','t.subtype.len() <= szmax()','t.suffix.len() <= szmax()']
CONTRACTS=[
 C('iequal','(anonymous namespace)::iequal',['lhs','rhs'],ensures=['ret == ieq(lhs, rhs)'],size_req=False,optional=True,requires=['lhs.len() <= szmax()','rhs.len() <= szmax()'],invs=['{i:int} <= lhs.len()','forall|j: int| #![trigger lhs[j]] 0 <= j < {i:int} ==> low(lhs[j] as int) == low(rhs[j] as int)','forall|j: int| #![trigger lhs[j]] 0 <= j < {i:it} ==> low(lhs[j] as int) == low(rhs[j] as int)']),
 C('isJSON','apib::isJSON',['t'],requires=SZ,ensures=['ret == (ieq(t.type_, APPLICATION()) && ieq(syntax_of(t), JSON()))']),
 C('isJSONSchema','apib::isJSONSchema',['t'],requires=SZ,ensures=['ret == (ieq(t.type_, APPLICATION()) && ieq(t.subtype, SCHEMA()) && ieq(t.suffix, JSON()))']),
]
