"""C28: POSIX regular expression matching and capture"""
from vx.engine import Contract as C
from vx import rx
ID='C28'
TUS=['packages/apib-parser/src/snowcrash/posix/RegexMatch.cc']
UNIT=rx.unit
ASSUME=rx.ASSUME
LIB=rx.LIB+'''
// REG_EXTENDED is 1
pub open spec fn matches(t: Seq<u8>, e: Seq<u8>) -> bool { t.len() > 0 && e.len() > 0 && rx_comp(cz(e), 1) == 0 && rx_exec(cz(e), 1, cz(t), 0) == 0 }
pub open spec fn group(t: Seq<u8>, e: Seq<u8>, i: int) -> Seq<u8> { let a = rx_so(cz(e), 1, cz(t), 0, i); let b = rx_eo(cz(e), 1, cz(t), 0, i); if a == -1 || b == -1 { Seq::empty() } else { cz(t).subrange(a as int, b as int) } }
pub open spec fn groups(t: Seq<u8>, e: Seq<u8>, n: int) -> Seq<Seq<u8>> { Seq::new(n as nat, |i: int| group(t, e, i)) }
// text cut from the target by offsets that lie before its first zero byte
pub proof fn sub_cz(t: Seq<u8>) ensures cz(t).len() <= t.len(), forall|a: int, c: int| 0 <= a && 0 <= c && a + c <= cz(t).len() ==> #[trigger] substr_(t, a, c) == cz(t).subrange(a, a + c)
{ cz_len(t); assert forall|a: int, c: int| 0 <= a && 0 <= c && a + c <= cz(t).len() implies #[trigger] substr_(t, a, c) == cz(t).subrange(a, a + c) by { assert(substr_(t, a, c) =~= cz(t).subrange(a, a + c)); } }
'''
N='snowcrash::'
CONTRACTS=[
 C('match',N+'RegexMatch',['target','expression'],ensures=['ret == matches(target, expression)']),
 C('capture',N+'RegexCapture',['target','expression','captureGroups:io','groupSize'],hints=['sub_cz(target);'],loophints=['sub_cz(target);','rx_ax(cz(expression), 1, cz(target), 0);'],invs=['{o:Seq<Seq<u8>>} =~= groups(target, expression, {i:int})'],requires=['groupSize <= szmax()'],ensures=['ret == matches(target, expression)','captureGroups_out =~= (if matches(target, expression) { groups(target, expression, groupSize as int) } else { Seq::empty() })']),
 C('first',N+'RegexCaptureFirst',['target','expression'],ensures=['ret =~= (if matches(target, expression) { group(target, expression, 1) } else { Seq::empty() })']),
]
