"""C24: dynamic type queries"""
from vx.engine import Contract as C
from vx import poly, elib
ID='C24'
TUS=['tus/refract_query.cc']
UNIT=poly.unit; ENG=poly.PEng
LIB=elib.WF+elib.TQ
CONTRACTS=elib.tq_contracts()
for X in poly.KINDS:
    CONTRACTS+=elib.as_contracts(X,ifpresent=False)
    for c in (0,1):
        CONTRACTS.append(C(f"get_{X}_{c}",'refract::get',['e:ro'],sig=lambda f,X=X,c=c: poly.kind_of_ty(f.rt.to)==X and bool(f.pt[0].to.c)==bool(c),ret='^e',ensures=[f'ret_null == (e_null || !(e is {X}))']))
