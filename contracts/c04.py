"""C04: character range to line and column"""
from vx.engine import Contract as C
ID='C04'
TUS=['packages/drafter/src/SourceMapUtils.cc']
from vx.stl import BOUND
def UNIT(u): u.extra['bounds']=BOUND
LIB=''
P='S_drafter_AnnotationPosition'
X='linesEndIndex'
CONTRACTS=[C('GetLineFromMap','drafter::GetLineFromMap',['idx','range'],requires=['sorted_u64(idx)'],
  invs=['forall|j: int| 0 <= j < {i:pos} ==> #[trigger] idx[j] <= range.location','forall|j: int| 0 <= j < {i:pos} ==> #[trigger] idx[j] < range.location + range.length','forall|j: int| {i:pos} <= j < idx.len() ==> #[trigger] idx[j] > range.location','forall|j: int| {i:pos} <= j < idx.len() ==> #[trigger] idx[j] >= range.location + range.length'],
  ensures=['idx.len() == 0 ==> ret.fromLine == 0 && ret.fromColumn == 0 && ret.toLine == 0 && ret.toColumn == 0',
   'forall|k: int| 0 < k < idx.len() && #[trigger] idx[k - 1] <= range.location < #[trigger] idx[k] ==> ret.fromLine == k && ret.fromColumn == range.location - idx[k - 1] + 1',
   'idx.len() > 0 && (range.location < idx[0] || range.location >= idx.last()) ==> ret.fromLine == 0 && ret.fromColumn == 0',
   'range.location + range.length < 0x1_0000_0000_0000_0000 ==> forall|k: int| 0 < k < idx.len() && #[trigger] idx[k - 1] < range.location + range.length <= #[trigger] idx[k] ==> ret.toLine == k && ret.toColumn == range.location + range.length - idx[k - 1]',
   'range.location + range.length < 0x1_0000_0000_0000_0000 && idx.len() > 0 && range.location + range.length > idx.last() ==> ret.toLine == idx.len() && ret.toColumn == 1',
   'range.location + range.length < 0x1_0000_0000_0000_0000 && idx.len() > 0 && range.location + range.length <= idx[0] ==> ret.toLine == 0 && ret.toColumn == 0'])]
