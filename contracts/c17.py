"""C17: container data structures"""
from vx.engine import Contract as C
from vx import poly, elib
ID='C17'
TUS=['tus/refract_containers.cc']
UNIT=poly.unit; ENG=poly.PEng
LIB=elib.WF+elib.CLONE+elib.TQ+elib.CONT
CONTRACTS=elib.clone_contracts()[:0]+elib.tq_contracts()+elib.as_contracts('Member')+elib.as_contracts('String')
for X in elib.SEQS+('Select',): CONTRACTS+=elib.cont_contracts(X)
CONTRACTS+=elib.object_contracts()
