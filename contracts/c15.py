"""C15: structural equality"""
from vx.engine import Contract as C
from vx import poly, elib
ID='C15'
TUS=['tus/refract.cc']
UNIT=poly.unit; ENG=poly.PEng
LIB=elib.WF+elib.EQLIB
CONTRACTS=elib.eq_contracts()
