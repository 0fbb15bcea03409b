"""C16: meta and attribute collections"""
from vx.engine import Contract as C
from vx import poly, elib
ID='C16'
TUS=['tus/refract.cc']
UNIT=poly.unit; ENG=poly.PEng
LIB=elib.WF+elib.CLONE+elib.IELIB
CONTRACTS=elib.clone_contracts()+elib.ie_contracts()
