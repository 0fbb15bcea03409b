"""C11: reserved base type names"""
from vx.engine import Contract as C
ID='C11'
TUS=['packages/drafter/src/refract/Element.cc']
NAMES='array boolean enum extend generic member null number object option ref select string'.split()
LIB='''
pub open spec fn is_base_name(w: Seq<u8>) -> bool { '''+' || '.join('w =~= seq!['+', '.join(f'{ord(c)}u8' for c in n)+']' for n in NAMES)+''' }
'''
CONTRACTS=[
 C('isReservedC','refract::isReserved',['w@s:cstr'],sig=lambda f: f.pt[0].k=='ptr',ensures=['ret == is_base_name(cz(s.skip(w)))'],optional=True),
 C('isReserved','refract::isReserved',['w'],sig=lambda f: f.pt[0].k=='ref',ensures=['ret == is_base_name(w)'],hints=['assert(w.skip(0) =~= w); cz_len(w); if cz(w).len() == w.len() { assert(cz(w) =~= w); cz_id(w); }']),
]
