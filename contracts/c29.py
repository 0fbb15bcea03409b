"""C29: type sizes"""
from vx.engine import Contract as C
from vx import poly, elib, logm
from contracts import c12
ID='C29'
TUS=['tus/refract_size.cc']
ENG=poly.PEng
from vx import run
FLAGS=run.STUBS
def UNIT(u): poly.unit(u); logm.unit(u)
ASSUME=logm.ASSUME+['merging the layers of an inheritance (dsd::Extend::merge) is an uninterpreted function of the layers; the merged element is of smaller height than the extend (used for termination only)',
 'no element has more children, attributes or meta entries than the address space holds']
K={n:elib.lit(n) for n in('typeAttributes','fixed','fixedType','nullable','variable','samples','default','enumerations','resolved','required','optional')}
OB='Option<Box<El>>'
def at(m,k): return f"ie_at({m}, {K[k]})"
def inl(m,k,then,els):
    return f"{{ let m = {m}.elements; let i = ie_idx(m, {K[k]}); if 0 <= i < m.len() {{ match m[i].1 {{ Some(b) => {{ {then} }}, None => {els} }} }} else {{ {els} }} }}"
PRIM=('String','Number','Boolean')
LIB=elib.WF+elib.IEFIND+elib.ACC+elib.IEAT+elib.SUBS+c12.LIB+f'''
pub open spec fn is_str(p: {OB}, n: Seq<u8>) -> bool {{ p is Some && *p->Some_0 is String && (*p->Some_0)->String_0.hasValue_ && (*p->Some_0)->String_0.data_.value_ == n }}
pub open spec fn has_str(s: Seq<{OB}>, n: Seq<u8>) -> bool {{ exists|i: int| 0 <= i < s.len() && is_str(#[trigger] s[i], n) }}
pub open spec fn has_ta(m: IE, n: Seq<u8>) -> bool {{ let p = {at('m','typeAttributes')}; p is Some && *p->Some_0 is Array && has_str((*p->Some_0)->Array_0.data_.elements_, n) }}
pub open spec fn fixed(m: IE) -> bool {{ has_ta(m, {K['fixed']}) }}
pub open spec fn fixed_type(m: IE) -> bool {{ has_ta(m, {K['fixedType']}) }}
pub open spec fn nullable(m: IE) -> bool {{ has_ta(m, {K['nullable']}) }}
pub open spec fn variable(m: IE) -> bool {{ let p = {at('m','variable')}; p is Some && *p->Some_0 is Boolean && (*p->Some_0)->Boolean_0.hasValue_ && (*p->Some_0)->Boolean_0.data_.data_ }}
pub open spec fn has_sample(m: IE) -> bool {{ let p = {at('m','samples')}; p is Some && *p->Some_0 is Array && (*p->Some_0)->Array_0.hasValue_ && (*p->Some_0)->Array_0.data_.elements_.len() > 0 }}
pub open spec fn has_default(m: IE) -> bool {{ {at('m','default')} is Some }}
pub open spec fn defines(has: bool, m: IE) -> bool {{ has || has_sample(m) || has_default(m) }}
pub open spec fn nul(n: int, m: IE) -> int {{ if nullable(m) {{ cadd(n, 1) }} else {{ n }} }}
pub uninterp spec fn merge_sp(d: D_Extend) -> {OB};
#[verifier::external_body] pub proof fn ax_merge(d: D_Extend) ensures merge_sp(d) is Some ==> wf(*merge_sp(d)->Some_0) && decreases_to!(d => *merge_sp(d)->Some_0) {{}}
// ---- the rules: number of values of an element; f: fixed by an enclosing element
pub open spec fn sz(e: El, f: bool) -> int decreases e, 2int {{ match e {{ {', '.join(f'El::{X}(x) => sz_{X}(x, f)' for X in poly.KINDS)} }} }}
pub open spec fn szp(p: {OB}, f: bool) -> int decreases p, 3int {{ match p {{ Some(b) => sz(*b, f), None => 0 }} }}
pub open spec fn szpo(p: Option<Box<E_Option>>, f: bool) -> int decreases p, 3int {{ match p {{ Some(b) => sz_Option(*b, f), None => 0 }} }}
pub open spec fn prod(s: Seq<{OB}>, n: int, f: bool) -> int decreases s, n {{ if n <= 0 || n > s.len() {{ 1 }} else {{ cmul(prod(s, n - 1, f), szp(s[n - 1], f)) }} }}
pub open spec fn sum(s: Seq<{OB}>, n: int, f: bool) -> int decreases s, n {{ if n <= 0 || n > s.len() {{ 0 }} else {{ cadd(sum(s, n - 1, f), szp(s[n - 1], f)) }} }}
pub open spec fn sumo(s: Seq<Option<Box<E_Option>>>, n: int, f: bool) -> int decreases s, n {{ if n <= 0 || n > s.len() {{ 0 }} else {{ cadd(sumo(s, n - 1, f), szpo(s[n - 1], f)) }} }}
pub open spec fn sz_Null(x: E_Null, f: bool) -> int {{ 1 }}
pub open spec fn sz_prim(has: bool, m: IE, base: int, f: bool) -> int {{ nul(if (f && defines(has, m)) || fixed(m) {{ 1 }} else {{ base }}, m) }}
pub open spec fn sz_String(x: E_String, f: bool) -> int {{ sz_prim(x.hasValue_, x.attributes_, OPEN(), f) }}
pub open spec fn sz_Number(x: E_Number, f: bool) -> int {{ sz_prim(x.hasValue_, x.attributes_, OPEN(), f) }}
pub open spec fn sz_Boolean(x: E_Boolean, f: bool) -> int {{ sz_prim(x.hasValue_, x.attributes_, 2, f) }}
pub open spec fn sz_Object(x: E_Object, f: bool) -> int decreases x, 1int {{ let g = f || fixed(x.attributes_); nul(if !(g || fixed_type(x.attributes_)) {{ OPEN() }} else if !x.hasValue_ {{ 1 }} else {{ prod(x.data_.elements_, x.data_.elements_.len() as int, g) }}, x.attributes_) }}
pub open spec fn sz_Member(x: E_Member, f: bool) -> int decreases x, 1int {{ if !x.hasValue_ || x.data_.value_ is None {{ 0 }} else {{ nul(cmul(if variable(x.attributes_) {{ OPEN() }} else {{ 1 }}, szp(x.data_.value_, f)), x.attributes_) }} }}
pub open spec fn sz_Array(x: E_Array, f: bool) -> int decreases x, 1int {{ nul(if f || fixed(x.attributes_) {{ if !x.hasValue_ {{ 1 }} else {{ prod(x.data_.elements_, x.data_.elements_.len() as int, true) }} }} else if fixed_type(x.attributes_) && !x.hasValue_ {{ 0 }} else {{ OPEN() }}, x.attributes_) }}
pub open spec fn sz_Enum(x: E_Enum, f: bool) -> int decreases x, 1int {inl('x.attributes_','enumerations','match *b { El::Array(a) => if a.hasValue_ { nul(sum(a.data_.elements_, a.data_.elements_.len() as int, f || fixed(x.attributes_)), x.attributes_) } else { 0 }, _ => 0 }','0')}
pub open spec fn sz_Ref(x: E_Ref, f: bool) -> int decreases x, 1int {inl('x.attributes_','resolved','sz(*b, f)','0')}
pub open spec fn sz_Extend(x: E_Extend, f: bool) -> int decreases x, 1int via ext_dec {{ if !x.hasValue_ {{ 0 }} else {{ match merge_sp(x.data_) {{ Some(b) => sz(*b, f), None => 0 }} }} }}
#[via_fn] proof fn ext_dec(x: E_Extend, f: bool) {{ ax_merge(x.data_); }}
pub open spec fn sz_Holder(x: E_Holder, f: bool) -> int decreases x, 1int {{ if !x.hasValue_ {{ 0 }} else {{ szp(x.data_.data_, f) }} }}
pub open spec fn sz_Select(x: E_Select, f: bool) -> int decreases x, 1int {{ if !x.hasValue_ {{ 0 }} else {{ sumo(x.data_.elements_, x.data_.elements_.len() as int, f) }} }}
pub open spec fn sz_Option(x: E_Option, f: bool) -> int decreases x, 1int {{ if !x.hasValue_ {{ 0 }} else {{ prod(x.data_.elements_, x.data_.elements_.len() as int, f) }} }}
'''
U='refract::'
AT='attrs(e)'
def ta(nm,k): return C(nm,U+nm,['e'],hints=[f"assert({K[k]}.skip(0) =~= {K[k]}); cz_id({K[k]});"],requires=['wf(e)'],ensures=[f"ret == has_ta({AT}, {K[k]})"],size_req=False,ifpresent=True)
IDX=[f"lem_idx({AT}.elements, {K[k]});" for k in()]
def idx(k,m=AT): return f"lem_idx({m}.elements, {K[k]}); sub_at({m}, {K[k]});"
WFA=f"wf_ie({AT})"
for fn,z,E0,op in (('prod','szp',OB,'cmul'),('sum','szp',OB,'cadd'),('sumo','szpo','Option<Box<E_Option>>','cadd')):
    one='sz_Option(*s[i]->Some_0, f)' if fn=='sumo' else 'sz(*s[i]->Some_0, f)'
    LIB+=f"pub proof fn lem_{fn}(s: Seq<{E0}>, i: int, f: bool) requires 0 <= i < s.len() ensures {fn}(s, i + 1, f) == {op}({fn}(s, i, f), {z}(s[i], f)), s[i] is Some ==> {z}(s[i], f) == {one} {{ }}\npub proof fn lem_{fn}0(s: Seq<{E0}>, f: bool) ensures {fn}(s, 0, f) == {1 if fn=='prod' else 0} {{ }}\n"
LEMA='pub proof fn lem_wfa(e: El) requires wf(e) ensures wf_ie(attrs(e)), wf_ie(meta(e)) { }\n'
LIB+=LEMA
CONTRACTS=[c for c in elib.ie_contracts() if c.name in('ie_size','ie_empty','ie_begin','ie_end','ie_find')]+[c for c in c12.CONTRACTS]+[
 C('hasTypeAttr',U+'hasTypeAttr',['e','name@s:cstr'],requires=['wf(e)'],ensures=[f"ret == has_ta({AT}, cz(s.skip(name)))"],hints=['lem_wfa(e);',idx('typeAttributes')],size_req=False),
 ta('hasFixedTypeAttr','fixed'),ta('hasFixedTypeTypeAttr','fixedType'),ta('hasNullableTypeAttr','nullable'),
 C('isVariable',U+'isVariable',['e'],requires=['wf(e)'],ensures=[f"ret == variable({AT})"],hints=['lem_wfa(e);',idx('variable')],size_req=False),
 C('definesValue',U+'definesValue',['e'],requires=['wf(e)'],ensures=[f"ret == defines(hasval(e), {AT})"],hints=['lem_wfa(e);',idx('samples'),idx('default')],size_req=False),
]
for X in poly.KINDS:
    CONTRACTS.append(C(f'get_{X}','refract::get',['e:ro'],sig=lambda f,X=X: poly.kind_of_ty(f.rt.to)==X and bool(f.pt[0].to.c),ret='^e',ensures=[f'ret_null == (e_null || !(e is {X}))'],ifpresent=True))
S_='e.data_.elements_'
FL=['true','false','inheritsFixed','inheritsFixed || fixed(e.attributes_)']
def invs(fn,ss=S_): return [f"{{c:S_refract_cardinal}}.data_ as int == {fn}({ss}, {{i:it}}, {g})" for g in FL]
INV=dict(Object=invs('prod'),Array=invs('prod')+invs('sum'),Select=invs('sumo'),Option=invs('prod'))
AE='e.attributes_.elements[ie_idx(e.attributes_.elements, %s)].1'%K['enumerations']
INV['Enum']=invs('sum','(*'+AE+'->Some_0)->Array_0.data_.elements_')
def hint(X,d,fns): return [f'if {{i:it}} < {d}.elements_.len() {{ sub_{X}({d}, {{i:it}}); '+' '.join(f'lem_{fn}({d}.elements_, {{i:it}}, {g});' for fn in fns for g in ('true','false'))+' }']
def hint0(d,fns): return [f'lem_{fn}0({d}.elements_, {g});' for fn in fns for g in('true','false')]
AD='(*'+AE+'->Some_0)->Array_0.data_'
FNS=dict(Object=['prod'],Array=['prod','sum'],Select=['sumo'],Option=['prod'],Enum=['sum'])
HINT={X:hint('Array' if X=='Enum' else X,AD if X=='Enum' else 'e.data_',FNS[X]) for X in FNS}
HINT0={X:hint0(AD if X=='Enum' else 'e.data_',FNS[X]) for X in FNS}
def kx(X): return lambda f: f.pt[0].k=='ref' and poly.kind_of_ty(f.pt[0].to)==X
for X in poly.KINDS:
    hints=[]
    if X in('Ref','Enum'): hints=[idx('resolved' if X=='Ref' else 'enumerations','e.attributes_')]
    hints=hints+HINT0.get(X,[])
    if X=='Extend': hints=['ax_merge(e.data_);']
    CONTRACTS.append(C(f'size_{X}',U+'sizeOf',['e','inheritsFixed'],sig=kx(X),requires=[f'wf(El::{X}(e))'],ensures=[f'ret.data_ as int == sz_{X}(e, inheritsFixed)'],dec=['e','1int'],hints=hints,invs=INV.get(X,[]),loophints=HINT.get(X,[]),size_req=False))
CONTRACTS.append(C('size',U+'sizeOf',['e','inheritsFixed'],sig=lambda f: f.pt[0].k=='ref' and poly.is_base(f.pt[0].to),requires=['wf(e)'],ensures=['ret.data_ as int == sz(e, inheritsFixed)'],dec=['e','2int'],split=('e',poly.KINDS),size_req=False))
CONTRACTS.append(C('merge','refract::dsd::Extend::merge',['this_'],ensures=['ret == merge_sp(this_)'],trusted=True,size_req=False))
