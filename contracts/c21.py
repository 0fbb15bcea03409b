"""C21: expandability"""
from vx.engine import Contract as C
from vx import poly, elib
from vx.elib import SEQS
ID='C21'
TUS=['tus/refract_expandable.cc']
UNIT=poly.unit; ENG=poly.PEng
EN=elib.lit('enumerations')
def lib():
    o='''// an element needs expansion: from the property, to any depth
pub open spec fn ex_ob(p: Option<Box<El>>) -> bool decreases p { p is Some && ex(*p->Some_0) }
pub open spec fn ex_obo(p: Option<Box<E_Option>>) -> bool decreases p { p is Some && ex_Option(*p->Some_0) }
pub open spec fn ex_seq(s: Seq<Option<Box<El>>>) -> bool decreases s { exists|i: int| 0 <= i < s.len() && ex_ob(#[trigger] s[i]) }
pub open spec fn ex_seqo(s: Seq<Option<Box<E_Option>>>) -> bool decreases s { exists|i: int| 0 <= i < s.len() && ex_obo(#[trigger] s[i]) }
'''
    for X in poly.KINDS:
        if X=='Ref': b='true'
        else:
            b='!is_base_name(x.name_)'
            if X in SEQS: b+=' || x.hasValue_ && ex_seq(x.data_.elements_)'
            if X=='Select': b+=' || x.hasValue_ && ex_seqo(x.data_.elements_)'
            if X=='Member': b+=' || x.hasValue_ && (ex_ob(x.data_.key_) || ex_ob(x.data_.value_))'
            if X=='Enum': b+=f' || x.hasValue_ && ex_ob(x.data_.value_) || ({{ let m = x.attributes_.elements; let i = ie_idx(m, {EN}); 0 <= i < m.len() && ex_ob(m[i].1) }})'
        o+=f"pub open spec fn ex_{X}(x: E_{X}) -> bool decreases x {{ {b} }}\n"
    o+="pub open spec fn ex(e: El) -> bool decreases e { match e { "+', '.join(f'El::{X}(x) => ex_{X}(x)' for X in poly.KINDS)+" } }\n"
    return o
LIB=elib.WF+elib.CLONE+elib.IEFIND+elib.IEAT+elib.SUBS+elib.RES+lib()
V='refract::IsExpandableVisitor::operator()'
CONTRACTS=elib.ie_contracts()[:9]+elib.res_contracts()+[C('isex_get','refract::IsExpandableVisitor::get',['this_'],ensures=['ret == this_.result'])]
for X in poly.KINDS:
    kw={}
    if X in SEQS+('Select',):
        f='ex_ob' if X!='Select' else 'ex_obo'
        kw=dict(invs=[f'forall|j: int| 0 <= j < {{i:it}} ==> !{f}(#[trigger] e.data_.elements_[j])'],loophints=[f'if 0 <= {{i:it}} < e.data_.elements_.len() {{ sub_{X}(e.data_, {{i:it}}); }}'])
    if X=='Enum': kw=dict(hints=[f'sub_at(e.attributes_, {EN}); lem_idx(e.attributes_.elements, {EN});'])
    CONTRACTS.append(C(f'isex_{X}',V,['this_','e'],sig=lambda f,X=X: poly.kind_of_ty(f.pt[0].to)==X,requires=[f'wf(El::{X}(e))'],ensures=[f'this__out.result == ex_{X}(e)'],dec=['e','0int'],size_req=False,**kw))
CONTRACTS.append(C('isex',V,['this_','e'],sig=lambda f: poly.is_base(f.pt[0].to),requires=['wf(e)'],ensures=['this__out.result == ex(e)'],dec=['e','1int'],size_req=False))
