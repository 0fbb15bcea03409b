"""C13: clone"""
from vx.engine import Contract as C
from vx import poly, elib
ID='C13'
TUS=['tus/refract_query.cc']
UNIT=poly.unit; ENG=poly.PEng
LIB=elib.WF+elib.CLONE+elib.IELIB+elib.EQLIB+'''
// a full clone compares equal to its original (eqel is what operator== is proved to compute, property C15)
pub proof fn full_clone_equal(e: El) ensures eqel(clone_sp(e, 15), e) { full_clone(e); refl_eqel(e); }
// the id is gone exactly when asked for
pub proof fn without_id(m: IE, f: int) ensures fbit(f, 1) && fbit(f, 16) ==> forall|i: int| 0 <= i < clone_meta(m, f).elements.len() ==> (#[trigger] clone_meta(m, f).elements[i]).0 != id_key() { lem_without_len(m.elements, id_key()); }
'''
CONTRACTS=elib.clone_contracts()+[elib.ie_erase(),
 C('ie_assign','refract::InfoElements::operator=',['this_','rhs'],ret='=this_',ensures=['this__out == rhs'])]+[elib.copy1_contracts(X) for X in ('Holder','Enum','Member')]+elib.eq_contracts()
for X in poly.KINDS:
    CONTRACTS.append(C('tclone_'+X,'refract::clone',['el','flags'],sig=lambda f,X=X: f.pt[0].k=='ref' and poly.kind_of_ty(f.pt[0].to)==X,requires=[f'wf(El::{X}(el))'],pure=f'Some(Box::new(clone_sp(El::{X}(el), flags as int)->{X}_0))',dec=['el','1int'],size_req=False))
CONTRACTS.append(C('tclone_el','refract::clone',['el','flags'],sig=lambda f: f.pt[0].k=='ref' and poly.is_base(f.pt[0].to),requires=['wf(el)'],pure='Some(Box::new(clone_sp(el, flags as int)))',dec=['el','2int'],size_req=False))
