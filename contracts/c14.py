"""C14: copy, move, assignment and swap of data structures"""
from vx.engine import Contract as C
from vx import poly, elib
ID='C14'
TUS=['tus/refract.cc']
UNIT=poly.unit; ENG=poly.PEng
LIB=elib.WF+elib.CLONE+elib.IELIB
CONTRACTS=elib.clone_contracts()+[elib.ie_erase()]+[C('ie_assign','refract::InfoElements::operator=',['this_','rhs'],ret='=this_',ensures=['this__out == rhs']),
 C('ie_move','refract::InfoElements::InfoElements',['other:io'],sig=lambda f: f.move,ensures=['ret == other','other_out == empty_ie()']),
 C('ie_swap','refract::swap',['lhs','rhs'],sig=lambda f: 'InfoElements' in f.pt[0].s,ensures=['lhs_out == rhs','rhs_out == lhs'])]
for X in elib.DCONT: CONTRACTS+=elib.move_contracts(X)
for X in ('Holder','Enum','Member'):
    CONTRACTS.append(elib.copy1_contracts(X))
q='refract::dsd::'
CONTRACTS+=[C('holder_of',q+'Holder::Holder',['el'],sig=lambda f: len(f.pt)==1 and not f.copy and not f.move,ensures=['ret.data_ == el']),
 C('enum_of',q+'Enum::Enum',['value'],sig=lambda f: len(f.pt)==1 and not f.copy and not f.move,ensures=['ret.value_ == value']),
 C('member_of',q+'Member::Member',['key','value'],sig=lambda f: len(f.pt)==2 and f.pt[0].k!='ref',ensures=['ret.key_ == key && ret.value_ == value']),
 C('member_of_s',q+'Member::Member',['key','value'],sig=lambda f: len(f.pt)==2 and f.pt[0].k=='ref',ensures=['ret.key_ is Some && *ret.key_->Some_0 is String && (*ret.key_->Some_0)->String_0.data_.value_ == key && (*ret.key_->Some_0)->String_0.hasValue_ && ret.value_ == value']),
]
TUS=['tus/refract_elements.cc']
for X,n,f in (('Holder','claim','data_'),('Enum','claim','value_'),('Member','claim','value_')):
    CONTRACTS.append(C(f'claim_{X}',q+X+'::'+n,['this_'],ensures=[f'ret == this_.{f}',f'this__out.{f} is None']+(['this__out.key_ == this_.key_'] if X=='Member' else [])))
CONTRACTS.append(C('member_set',q+'Member::value',['this_','v'],sig=lambda f: len(f.pt)==1,ensures=['this__out.value_ == v','this__out.key_ == this_.key_']))
for X in poly.KINDS:
    E=f'E_{X}'; on=lambda f,X=X: f.rec.key==poly.ekey(X)
    w=[elib.wfd(X,'data')] if X in elib.DCONT else []
    nm=elib.lit(elib.NAMES[X])
    CONTRACTS+=[C(f'el_of_{X}','refract::Element::Element',['data'],sig=lambda f,on=on: on(f) and len(f.pt)==1 and not f.copy and not f.move,requires=w,ensures=[f'ret == {E} {{ meta_: empty_ie(), attributes_: empty_ie(), hasValue_: true, data_: data, name_: {nm} }}'],size_req=False),
     C(f'el_named_{X}','refract::Element::Element',['name','data'],sig=lambda f,on=on: on(f) and len(f.pt)==2,requires=w,ensures=[f'ret == {E} {{ meta_: empty_ie(), attributes_: empty_ie(), hasValue_: true, data_: data, name_: name }}'],size_req=False),
     C(f'el_set_{X}','refract::Element::set',['this_','data'],sig=on,requires=w,ensures=[f'this__out == (E_{X} {{ hasValue_: true, data_: data, ..this_ }})'],size_req=False)]
    CONTRACTS+=[C(f'el_copy_{X}','refract::Element::Element',['other'],sig=lambda f,on=on: on(f) and f.copy and f.has_body,requires=[f'wf(El::{X}(other))'],ensures=['ret == other'],ifpresent=True,size_req=False),
     C(f'el_move_{X}','refract::Element::Element',['other:io'],sig=lambda f,on=on: on(f) and f.move and f.has_body,ensures=['ret == other'],ifpresent=True,size_req=False),
     C(f'el_assign_{X}','refract::Element::operator=',['this_','other'],sig=lambda f,on=on: on(f) and f.copy and f.has_body,requires=[f'wf(El::{X}(other))'],ret='=this_',ensures=['this__out == other'],ifpresent=True,size_req=False),
     C(f'el_massign_{X}','refract::Element::operator=',['this_','other:io'],sig=lambda f,on=on: on(f) and f.move and f.has_body,ret='=this_',ensures=['this__out == other'],ifpresent=True,size_req=False)]
    CONTRACTS+=[C(f'el_selfassign_{X}','refract::Element::operator=',['this_','other:self'],sig=lambda f,on=on: on(f) and f.copy and f.has_body,requires=[f'wf(El::{X}(this_))'],ret='=this_',ensures=['this__out == this_'],ifpresent=True,size_req=False)]
for X in elib.DCONT:
    CONTRACTS.append(C(f'selfswap_{X}','refract::dsd::swap',['lhs','rhs:self'],sig=lambda f,X=X: f.pt[0].k=='ref' and f.pt[0].to.key==f'refract::dsd::{X}',ensures=['lhs_out == lhs']))
for X in ('Null','String','Number','Boolean','Ref'):
    on=lambda f,X=X: f.rec.key==f'refract::dsd::{X}'
    CONTRACTS+=[C(f'd_copy_{X}',q+X+'::'+X,['other'],sig=lambda f: f.copy and f.has_body,ensures=['ret == other'],ifpresent=True),
     C(f'd_move_{X}',q+X+'::'+X,['other:io'],sig=lambda f: f.move and f.has_body,ensures=['ret == other'],ifpresent=True),
     C(f'd_assign_{X}',q+X+'::operator=',['this_','other'],sig=lambda f: f.copy and f.has_body,ret='=this_',ensures=['this__out == other'],ifpresent=True),
     C(f'd_massign_{X}',q+X+'::operator=',['this_','other:io'],sig=lambda f: f.move and f.has_body,ret='=this_',ensures=['this__out == other'],ifpresent=True)]
