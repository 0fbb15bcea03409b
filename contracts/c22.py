"""C22: expansion of named types"""
from vx.engine import Contract as C
from vx import poly, elib
from vx.graph import Graph
from vx.elib import SEQS, NAMES, ddef
from contracts import c19, c20, c21
ID='C22'
TUS=['tus/refract_expand.cc']
UNIT=poly.unit; ENG=poly.PEng
ASSUME=['clone() of an element has the contract proved for C13 and C14 (a deep copy of the selected parts), and the expandability check the one proved for C21; both are trusted here',
 'no element has more children, attributes or meta entries than the address space holds (container sizes are not bounded again in the element invariant)',
 'an option wrapped as an element is of smaller height than the select that holds it (used for termination only; the wrapper adds one level, the select at least three)',
 'the two objects of the expansion (visitor and context) point at each other, as the constructor sets them up']
OB='Option<Box<El>>'; OBO='Option<Box<E_Option>>'; NM='Seq<Seq<u8>>'; ENT='(Seq<u8>, Option<Box<El>>)'
IDK=elib.lit('id'); REFK=elib.lit('ref'); RESK=elib.lit('resolved'); ENK=elib.lit('enumerations')
class G(Graph):
    def functor(s,t): return t.k=='rec' and t.key=='refract::Registry'
GV=G('refract::ExpandVisitor',[],{'result':['result'],'members':['context','*','members'],'registry':['context','*','registry','*'],'=self':['context','*','expand','*']})
GC=G('refract::ExpandVisitor',['context','*'],{'result':['expand','*','result'],'members':['members'],'registry':['registry','*'],'=self':['expand','*','context','*']})
NAMED=('String','Number','Boolean','Array','Object','Enum','Extend','Option')
def el(X,meta='empty_ie()',attrs='empty_ie()',has='true',data=None): return f"E_{X} {{ meta_: {meta}, attributes_: {attrs}, hasValue_: {has}, data_: {data}, name_: {elib.lit(NAMES[X])} }}"
def some(X,x): return f"Some(Box::new(El::{X}({x})))"
def lib():
    o='''
pub type Names = Seq<Seq<u8>>;
// names are compared with the reserved ones up to their first NUL
pub open spec fn reserved(n: Seq<u8>) -> bool { is_base_name(cz(n)) }
// registered names that are not being expanded: what makes the recursion end
pub open spec fn free(t: Types, m: Names) -> nat decreases t.len() { if t.len() == 0 { 0 } else { free(t.drop_last(), m) + (if m.contains(t.last().0) { 0nat } else { 1nat }) } }
pub proof fn lem_push_has(m: Names, n: Seq<u8>, x: Seq<u8>) ensures m.push(n).contains(x) == (m.contains(x) || x == n)
{ if m.contains(x) { let i = choose|i: int| 0 <= i < m.len() && m[i] == x; assert(m.push(n)[i] == x); } if x == n { assert(m.push(n)[m.len() as int] == x); } if m.push(n).contains(x) { let i = choose|i: int| 0 <= i < m.push(n).len() && m.push(n)[i] == x; if i < m.len() { assert(m[i] == x); } } }
pub proof fn lem_free_le(t: Types, m: Names, n: Seq<u8>) ensures free(t, m.push(n)) <= free(t, m) decreases t.len() { if t.len() > 0 { lem_free_le(t.drop_last(), m, n); lem_push_has(m, n, t.last().0); } }
pub proof fn lem_free_at(t: Types, m: Names, i: int) requires 0 <= i < t.len(), !m.contains(t[i].0) ensures free(t, m.push(t[i].0)) < free(t, m) decreases t.len()
{ let n = t[i].0; lem_push_has(m, n, t.last().0); if i == t.len() - 1 { lem_free_le(t.drop_last(), m, n); } else { assert(t.drop_last()[i] == t[i]); lem_free_at(t.drop_last(), m, i); } }
pub proof fn lem_free(t: Types, m: Names, n: Seq<u8>) requires reg(t, n) is Some, !m.contains(n) ensures free(t, m.push(n)) < free(t, m) { lem_idx(t, n); lem_free_at(t, m, ie_idx(t, n)); }
pub proof fn lem_all_reg(t: Types, m: Names, n: Seq<u8>) requires all_reg(t, m), reg(t, n) is Some ensures all_reg(t, m.push(n)) { assert forall|i: int| 0 <= i < m.push(n).len() implies reg(t, #[trigger] m.push(n)[i]) is Some by { if i < m.len() { assert(m.push(n)[i] == m[i]); } } }
pub proof fn lem_pop(m: Names, n: Seq<u8>) ensures m.push(n).drop_last() == m, m.push(n).take(m.len() as int) == m, m.push(n).last() == n { assert(m.push(n).drop_last() =~= m); assert(m.push(n).take(m.len() as int) =~= m); }
pub open spec fn str_ob(s: Seq<u8>) -> OB { Some(Box::new(El::String(STREL))) }
pub open spec fn with_meta(e: El, k: Seq<u8>, v: OB) -> El { el_set_meta_(e, IE { elements: ie_set(meta(e).elements, k, v) }) }
// a layer of the inheritance: the registered type under its kind's own name, without id, referring to its name
pub open spec fn layer(t: Types, n: Seq<u8>) -> OB { Some(Box::new(with_meta(clone_sp(reg(t, n)->Some_0, 23), REFK, str_ob(n)))) }
pub open spec fn names(v: Seq<ENT>) -> Names { Seq::new(v.len(), |i: int| v[i].0) }
// the named type and its ancestors, nearest first; nothing when they inherit from one another in a cycle
pub open spec fn inh(t: Types, n: Seq<u8>, v: Seq<ENT>) -> Seq<ENT> decreases free(t, names(v)) via inh_dec { if reg(t, n) is None || is_base_name(n) { v } else if names(v).contains(n) { Seq::empty() } else { inh(t, ename(reg(t, n)->Some_0), v.push((n, layer(t, n)))) } }
pub proof fn lem_names_push(v: Seq<ENT>, x: ENT) ensures names(v.push(x)) == names(v).push(x.0) { assert(names(v.push(x)) =~= names(v).push(x.0)); }
#[via_fn] proof fn inh_dec(t: Types, n: Seq<u8>, v: Seq<ENT>) { if reg(t, n) is Some && !names(v).contains(n) { lem_names_push(v, (n, layer(t, n))); lem_free(t, names(v), n); } }
pub open spec fn rev_layers(v: Seq<ENT>) -> Seq<OB> { Seq::new(v.len(), |i: int| v[v.len() - 1 - i].1) }
// the layers of a named type, root first
pub open spec fn layers(t: Types, n: Seq<u8>) -> Seq<OB> { rev_layers(inh(t, n, Seq::empty())) }
pub open spec fn tree(t: Types, n: Seq<u8>) -> E_Extend { let s = layers(t, n); TREE }
// every registered name has one root ancestor
pub open spec fn is_root(t: Types, n: Seq<u8>, e: El) -> bool { exists|k: int| root_at(t, n, k, e) }
pub open spec fn root_of(t: Types, n: Seq<u8>) -> El { choose|e: El| is_root(t, n, e) }
pub proof fn lem_root(t: Types, n: Seq<u8>, e: El) requires exists|k: int| root_at(t, n, k, e) ensures root_of(t, n) == e { let k = choose|k: int| root_at(t, n, k, e); assert(is_root(t, n, e)); let f = root_of(t, n); let l = choose|l: int| root_at(t, n, l, f); lem_root_unique(t, n, k, e, l, f); }
// a type met again inside itself: its root's attributes and meta, no value, referring to its name
pub open spec fn circ(t: Types, n: Seq<u8>) -> El { with_meta(clone_sp(root_of(t, n), 19), REFK, str_ob(n)) }
pub open spec fn has_id(e: El) -> bool { let p = ie_at(meta(e), IDK); p is Some && hasval(*p->Some_0) }
pub open spec fn id_meta(e: El) -> IE { if has_id(e) { IE { elements: ie_set(Seq::empty(), IDK, ie_at(meta(e), IDK)) } } else { empty_ie() } }
pub open spec fn id_to_ref(e: El) -> El { if has_id(e) { el_set_meta_(e, IE { elements: ie_without(ie_set(meta(e).elements, REFK, ie_at(meta(e), IDK)), IDK) }) } else { e } }
// the expanded element, or the element itself when nothing is to be expanded
pub open spec fn xo(t: Types, m: Names, e: El) -> OB decreases free(t, m), e, 3int { match x(t, m, e) { Some(b) => Some(b), None => Some(Box::new(e)) } }
pub open spec fn xo_ob(t: Types, m: Names, p: OB) -> OB decreases free(t, m), p, 0int { if p is Some { xo(t, m, *p->Some_0) } else { None } }
pub open spec fn xo_obo(t: Types, m: Names, p: OBO) -> OBO decreases free(t, m), p, 0int { if p is Some { match x_Option(t, m, *p->Some_0) { Some(b) => Some(Box::new((*b)->Option_0)), None => p } } else { None } }
pub open spec fn xs(t: Types, m: Names, s: Seq<OB>, i: int) -> Seq<OB> decreases free(t, m), s, i { if i <= 0 || i > s.len() { Seq::empty() } else { xs(t, m, s, i - 1).push(xo_ob(t, m, s[i - 1])) } }
pub open spec fn put_obj(s: Seq<OB>, p: OB) -> Seq<OB> { (if has_key(*p->Some_0) { without_key(s, key_of(*p->Some_0)) } else { s }).push(p) }
pub open spec fn xs_Object(t: Types, m: Names, s: Seq<OB>, i: int) -> Seq<OB> decreases free(t, m), s, i { if i <= 0 || i > s.len() { Seq::empty() } else { put_obj(xs_Object(t, m, s, i - 1), xo_ob(t, m, s[i - 1])) } }
pub open spec fn xs_Select(t: Types, m: Names, s: Seq<OBO>, i: int) -> Seq<OBO> decreases free(t, m), s, i { if i <= 0 || i > s.len() { Seq::empty() } else { xs_Select(t, m, s, i - 1).push(xo_obo(t, m, s[i - 1])) } }
pub open spec fn xattr(t: Types, m: Names, s: Seq<ENT>, i: int) -> Seq<ENT> decreases free(t, m), s, i { if i <= 0 || i > s.len() { Seq::empty() } else { ie_set(xattr(t, m, s, i - 1), s[i - 1].0, xen(t, m, s[i - 1])) } }
pub open spec fn xen(t: Types, m: Names, a: ENT) -> OB decreases free(t, m), a { if a.0 == ENK && a.1 is Some && *a.1->Some_0 is Array { Some(Box::new(El::Array(ENARR))) } else { a.1 } }
// does expansion end with the error of a type that includes itself by mixin
pub open spec fn th(t: Types, m: Names, e: El) -> bool decreases free(t, m), e, 2int { match e { THS } }
pub open spec fn th_ob(t: Types, m: Names, p: OB) -> bool decreases free(t, m), p, 0int { p is Some && th(t, m, *p->Some_0) }
pub open spec fn th_obo(t: Types, m: Names, p: OBO) -> bool decreases free(t, m), p, 0int { p is Some && th_Option(t, m, *p->Some_0) }
pub open spec fn th_seq(t: Types, m: Names, s: Seq<OB>) -> bool decreases free(t, m), s { exists|i: int| 0 <= i < s.len() && th_ob(t, m, #[trigger] s[i]) }
pub open spec fn th_seqo(t: Types, m: Names, s: Seq<OBO>) -> bool decreases free(t, m), s { exists|i: int| 0 <= i < s.len() && th_obo(t, m, #[trigger] s[i]) }
pub open spec fn th_at(t: Types, m: Names, s: Seq<ENT>) -> bool decreases free(t, m), s { exists|i: int| 0 <= i < s.len() && th_en(t, m, #[trigger] s[i]) }
pub open spec fn th_en(t: Types, m: Names, a: ENT) -> bool decreases free(t, m), a { a.0 == ENK && a.1 is Some && *a.1->Some_0 is Array && th_seq(t, m, (*a.1->Some_0)->Array_0.data_.elements_) }
'''
    o=o.replace('ENARR',el('Array',data='D_Array { elements_: xs(t, m, (*a.1->Some_0)->Array_0.data_.elements_, (*a.1->Some_0)->Array_0.data_.elements_.len() as int) }'))
    o=o.replace('THS',', '.join(f'El::{X}(x) => th_{X}(t, m, x)' if X not in('Null','Holder') else f'El::{X}(x) => false' for X in poly.KINDS))
    o=o.replace('TREE',el('Extend',has='s.len() > 0',data='D_Extend { elements_: s }')).replace('STREL',el('String',data='D_String { value_: s }'))
    o+="pub open spec fn x(t: Types, m: Names, e: El) -> OB decreases free(t, m), e, 2int { match e { "+', '.join(f'El::{X}(x) => x_{X}(t, m, x)' if X not in('Null','Holder') else f'El::{X}(x) => None' for X in poly.KINDS)+" } }\n"
    P='t: Types, m: Names, x: E_'; L='x.data_.elements_, x.data_.elements_.len() as int'
    via=[]
    def fn(nm,X,rt,lvl,body,v=None):
        nonlocal o
        o+=f"pub open spec fn {nm}_{X}({P}{X}) -> {rt} decreases free(t, m), x, {lvl}int{f' via {nm}_{X}_dec' if v else ''} {{ {body} }}\n"
        if v: o+=f"#[via_fn] proof fn {nm}_{X}_dec({P}{X}) {{ {v} }}\n"
    for X in poly.KINDS:
        if X in('Null','Holder'): continue
        if X in NAMED:
            # the element with its members expanded
            if X in('Array','Extend','Option'): d=f'D_{X} {{ elements_: xs(t, m, {L}) }}'; td='x.hasValue_ && th_seq(t, m, x.data_.elements_)'
            elif X=='Object': d=f'D_Object {{ elements_: xs_Object(t, m, {L}) }}'; td='x.hasValue_ && th_seq(t, m, x.data_.elements_)'
            elif X=='Enum': d='D_Enum { value_: xo_ob(t, m, x.data_.value_) }'; td='x.hasValue_ && th_ob(t, m, x.data_.value_)'
            else: d='x.data_'; td='false'
            fn('xm',X,f'E_{X}',0,el(X,'x.meta_','x.attributes_','x.hasValue_',f'if x.hasValue_ {{ {d} }} else {{ {ddef(X)} }}'))
            fn('tm',X,'bool',0,td)
            dec='if reg(t, x.name_) is Some && !m.contains(x.name_) { lem_free(t, m, x.name_); }'
            og=f'({{ let y = xm_{X}(t, m, x); El::{X}(E_{X} {{ meta_: IE {{ elements: ie_without(y.meta_.elements, IDK) }}, ..y }}) }})'
            D=f'({{ let s = layers(t, x.name_); (if reg(t, x.name_) is Some && s.len() > 0 {{ xs(t, m.push(x.name_), s, s.len() as int) }} else {{ Seq::empty() }}).push(Some(Box::new({og}))) }})'
            fn('xn',X,'El',1,f"if m.contains(x.name_) {{ circ(t, x.name_) }} else {{ El::Extend({el('Extend',f'id_meta(El::{X}(x))',data=f'D_Extend {{ elements_: {D} }}')}) }}",dec)
            fn('tn',X,'bool',1,f'!m.contains(x.name_) && (reg(t, x.name_) is Some && th_seq(t, m.push(x.name_), layers(t, x.name_)) || tm_{X}(t, m, x))',dec)
            nb='!reserved(x.name_)'; N=f'Some(Box::new(xn_{X}(t, m, x)))'
            if X in('String','Number','Boolean'): fn('x',X,'OB',2,f'if {nb} {{ {N} }} else {{ None }}'); fn('th',X,'bool',2,f'{nb} && tn_{X}(t, m, x)')
            elif X=='Enum':
                fn('x',X,'OB',2,f"if {nb} {{ {N} }} else {{ Some(Box::new(El::Enum(E_Enum {{ attributes_: IE {{ elements: xattr(t, m, x.attributes_.elements, x.attributes_.elements.len() as int) }}, ..xm_Enum(t, m, x) }}))) }}")
                fn('th',X,'bool',2,f'if {nb} {{ tn_Enum(t, m, x) }} else {{ tm_Enum(t, m, x) || th_at(t, m, x.attributes_.elements) }}')
            else:
                fn('x',X,'OB',2,f'if !ex_{X}(x) {{ None }} else if {nb} {{ {N} }} else {{ Some(Box::new(El::{X}(xm_{X}(t, m, x)))) }}')
                fn('th',X,'bool',2,f'ex_{X}(x) && (if {nb} {{ tn_{X}(t, m, x) }} else {{ tm_{X}(t, m, x) }})')
        elif X=='Select':
            fn('x',X,'OB',2,f"if !ex_Select(x) {{ None }} else {{ {some(X,el(X,'x.meta_',data=f'D_Select {{ elements_: xs_Select(t, m, {L}) }}'))} }}")
            fn('th',X,'bool',2,'ex_Select(x) && th_seqo(t, m, x.data_.elements_)')
        elif X=='Member':
            fn('x',X,'OB',2,"if !ex_Member(x) { None } else { Some(Box::new(El::Member(E_Member { hasValue_: true, data_: D_Member { key_: xo_ob(t, m, x.data_.key_), value_: xo_ob(t, m, x.data_.value_) }, ..x }))) }")
            fn('th',X,'bool',2,'ex_Member(x) && (th_ob(t, m, x.data_.key_) || th_ob(t, m, x.data_.value_))')
        elif X=='Ref':
            S='x.data_.data_'
            dec=f'if reg(t, {S}) is Some && !m.contains({S}) {{ lem_free(t, m, {S}); }}'
            fn('x',X,'OB',2,f"if {S}.len() > 0 && !m.contains({S}) && reg(t, {S}) is Some {{ Some(Box::new(El::Ref(E_Ref {{ attributes_: IE {{ elements: ie_set(x.attributes_.elements, RESK, Some(Box::new(id_to_ref(*xo(t, m.push({S}), reg(t, {S})->Some_0)->Some_0)))) }}, ..x }}))) }} else {{ Some(Box::new(El::Ref(x))) }}",dec)
            fn('th',X,'bool',2,f"{S}.len() > 0 && (m.contains({S}) || reg(t, {S}) is Some && th(t, m.push({S}), reg(t, {S})->Some_0))",dec)
    import re
    for k,v in (('IDK',IDK),('REFK',REFK),('RESK',RESK),('ENK',ENK),('OBO',OBO),('OB',OB),('ENT',ENT)): o=re.sub(rf'\b{k}\b',v,o)
    return o
LIB=(c20.LIB+elib.IELIB[:elib.IELIB.index('pub open spec fn ie_idx')]+elib.SUBS+elib.CONT+c21.lib()+lib())
# options of a select carry the reserved name (the expansion of a select is defined for no others)
LIB=LIB.replace('m.elements.len() <= szmax() && ','').replace('d.elements_.len() <= szmax() && ','')
def once(s,a,b): assert s.count(a)==1,(s.count(a),a); return s.replace(a,b)
LIB=once(LIB,"(#[trigger] d.elements_[i]) is Some && wf_obo(d.elements_[i]) }","(#[trigger] d.elements_[i]) is Some && reserved((*d.elements_[i]->Some_0).name_) && wf_obo(d.elements_[i]) }")
T='registry.types_'; M='members'
def weak(c):
    c.requires=[r for r in c.requires if r!='wf_ie(this_)']
    if c.name=='ie_size': c.requires=['this_.elements.len() <= szmax()']
    c.size_req=False
    if c.name=='ie_set': c.ensures=c.ensures+['wf_ie(this_) && wf_ob(value) ==> wf_ie(this__out)']; c.hints=c.hints+['if wf_ie(this_) && wf_ob(value) { lem_set_wf(this_.elements, key, value); }']
    if c.name=='ie_erase_key': c.ensures=c.ensures+['wf_ie(this_) ==> wf_ie(this__out)']; c.hints=c.hints+['if wf_ie(this_) { lem_without_wf(this_.elements, key); }']
    return c
WIE=[weak(c) for c in elib.ie_contracts() if c.name in('ie_size','ie_empty','ie_begin','ie_end','ie_begin_m','ie_end_m','ie_clear','ie_find','ie_find_m','ie_erase_key','ie_set','ie_move','ie_assign','ie_swap')]
CL=elib.clone_contracts()
for c in CL: c.trusted=True
IX=[c for c in c21.CONTRACTS if c.name.startswith('isex')]
for c in IX: c.trusted=True
OBJ=[c for c in elib.object_contracts() if c.name in('Object_find','Object_push_back')]
for c in OBJ: 
    c.requires=[r for r in c.requires if r=='el is Some']; c.size_req=False
    if c.name=='Object_push_back': c.ensures=c.ensures+['wf_dObject(this_) && wf_ob(el) ==> wf_dObject(this__out)']
CONTRACTS=WIE+CL+elib.tq_contracts()+elib.as_contracts('Array')+elib.as_contracts('String')+elib.as_contracts('Member')+OBJ+elib.res_contracts()+IX+[c for c in c20.CONTRACTS if c.name in('reg_find','root_anc')]
ST=['!exc ==> members_out == members','registry_out == registry','!exc ==> result_out is None']
RQ=[f'wf_reg({T})',f'all_reg({T}, {M})','result is None']
DEC=lambda v,l: [f'free({T}, {M}) + 1',v,f'{l}int']
V='refract::ExpandVisitor::operator()'; CX='refract::ExpandVisitor::Context::'
VE='{v:Seq<'+ENT+'>}'; SE='{s:Seq<u8>}'; PE='{p:El}'; EE='{e:Option<Box<E_Extend>>}'; XE=f'(*{EE}->Some_0)'
CONTRACTS+=[C('id2ref','refract::(anonymous namespace)::MetaIdToRef',['e'],requires=['wf(e)'],ensures=['e_out == id_to_ref(e)','wf(e_out)'],ifpresent=True,size_req=False,hints=[f'lem_id2ref(e);'])]
CONTRACTS+=[C('inh_tree','refract::(anonymous namespace)::GetInheritanceTree',['name','registry'],requires=[f'wf_reg({T})'],ensures=['ret is Some',f'*ret->Some_0 == tree({T}, name)','wf(El::Extend(*ret->Some_0))'],size_req=False,
  invs=[f'inh({T}, name, Seq::empty()) == inh({T}, {SE}, {VE}) && {{b:bool}} == (reg({T}, {SE}) is None) && (!{{b:bool}} ==> reg({T}, {SE}) == Some({PE}))',
   f'{EE} is Some && {XE}.meta_ == empty_ie() && {XE}.attributes_ == empty_ie() && {XE}.hasValue_ && {XE}.name_ == {elib.lit("extend")} && layers({T}, name).len() > 0 && {XE}.data_.elements_ + rev_layers({VE}.take({{i:it}})) == layers({T}, name)'],
  loophints=[f'if !{{b:bool}} {{ lem_inh({T}, {SE}, {VE}); assert({PE} == reg({T}, {SE})->Some_0); }} else {{ lem_rev({VE}, {VE}.len() as int); }} lem_rev0(); assert({VE}.len() == 0 ==> {VE} =~= Seq::empty());',f'lem_tree_wf({T}, name); lem_rev({VE}, {{i:it}}); lem_rev0(); assert({XE}.data_.elements_ + Seq::<{OB}>::empty() =~= {XE}.data_.elements_); if {{i:it}} > 0 {{ assert({XE}.data_.elements_.push({VE}[{{i:it}} - 1].1) + rev_layers({VE}.take({{i:it}} - 1)) =~= {XE}.data_.elements_ + rev_layers({VE}.take({{i:it}}))); }}'],
  measure=['{i:it}',f'free({T}, names({VE})) as int'])]
def fz(l):
    for c in l: c.graph=GC if c.q.startswith(CX) else GV
    return l
VC=[C('ex_or_clone',CX+'ExpandOrClone',['this_:graph','e'],throws=True,requires=RQ+['!e_null ==> wf(e)'],ensures=ST+[f'exc == (!e_null && th({T}, {M}, e))',f'!exc ==> ret == (if e_null {{ None }} else {{ xo({T}, {M}, e) }})','!exc && ret is Some ==> wf(*ret->Some_0)'],dec=[f'if e_null {{ 0 }} else {{ free({T}, {M}) + 1 }}','e','4int'],size_req=False)]
OO='{o:Seq<'+OB+'>}'; OD='{o:D_Object}.elements_'; SAME=['{r:'+OB+'} is None','{m:Seq<Seq<u8>>} == members','{g:S_refract_Registry} == registry']
NOTH=f'forall|j: int| 0 <= j < {{i:it}} ==> !th_ob({T}, {M}, #[trigger] e.data_.elements_[j])'
for X in NAMED:
    kw={}
    if X in SEQS: kw=dict(invs=SAME+[NOTH,f"{OD if X=='Object' else OO} == {'xs_Object' if X=='Object' else 'xs'}({T}, {M}, e.data_.elements_, {{i:it}}) && wf_d{X}({'{o:D_Object}' if X=='Object' else 'D_'+X+' { elements_: '+OO+' }'})"],loophints=[f'if 0 <= {{i:it}} < e.data_.elements_.len() {{ sub_{X}(e.data_, {{i:it}}); assert(xo_ob({T}, {M}, e.data_.elements_[{{i:it}}]) == xo({T}, {M}, *e.data_.elements_[{{i:it}}]->Some_0)); assert(th_ob({T}, {M}, e.data_.elements_[{{i:it}}]) == th({T}, {M}, *e.data_.elements_[{{i:it}}]->Some_0)); }} assert(th_seq({T}, {M}, e.data_.elements_) == exists|j: int| 0 <= j < e.data_.elements_.len() && th_ob({T}, {M}, #[trigger] e.data_.elements_[j]));'])
    if X=='Enum': kw=dict(hints=[f'if e.data_.value_ is Some {{ assert(decreases_to!(e => *e.data_.value_->Some_0)); }} assert(xo_ob({T}, {M}, e.data_.value_) == (if e.data_.value_ is Some {{ xo({T}, {M}, *e.data_.value_->Some_0) }} else {{ None }})); assert(th_ob({T}, {M}, e.data_.value_) == (e.data_.value_ is Some && th({T}, {M}, *e.data_.value_->Some_0)));'])
    VC.append(C(f'members_{X}',CX+'ExpandMembers',['this_:graph','e'],sig=lambda f,X=X: poly.kind_of_ty(f.pt[0].to)==X,throws=True,requires=[f'wf_reg({T})',f'e.hasValue_ ==> all_reg({T}, {M})','result is None']+[f'wf(El::{X}(e))'],ensures=ST+[f'exc == tm_{X}({T}, {M}, e)',f'!exc ==> ret is Some && *ret->Some_0 == xm_{X}({T}, {M}, e) && wf(El::{X}(*ret->Some_0))'],dec=[f'if e.hasValue_ {{ free({T}, {M}) + 1 }} else {{ 0 }}','e','0int'],size_req=False,**kw))
for X in NAMED:
    VC.append(C(f'named_{X}',CX+'ExpandNamedType',['this_:graph','e'],sig=lambda f,X=X: poly.kind_of_ty(f.pt[0].to)==X,throws=True,requires=RQ+[f'wf(El::{X}(e))'],ensures=ST+[f'exc == tn_{X}({T}, {M}, e)',f'!exc ==> ret is Some && *ret->Some_0 == xn_{X}({T}, {M}, e) && wf(*ret->Some_0)'],dec=DEC('e',1),size_req=False,
      hints=[f'lem_named({T}, {M}, e.name_); lem_idx(e.meta_.elements, {IDK}); sub_at(e.meta_, {IDK}); if has_id(El::{X}(e)) {{ full_clone(*ie_at(e.meta_, {IDK})->Some_0); }}']))
MB=lambda f: f'if e.data_.{f} is Some {{ assert(decreases_to!(e => *e.data_.{f}->Some_0)); if !th({T}, {M}, *e.data_.{f}->Some_0) {{ full_clone(*xo({T}, {M}, *e.data_.{f}->Some_0)->Some_0); }} }} assert(xo_ob({T}, {M}, e.data_.{f}) == (if e.data_.{f} is Some {{ xo({T}, {M}, *e.data_.{f}->Some_0) }} else {{ None }})); assert(th_ob({T}, {M}, e.data_.{f}) == (e.data_.{f} is Some && th({T}, {M}, *e.data_.{f}->Some_0)));'
for X in poly.KINDS:
    ens=['!exc ==> members_out == members','registry_out == registry']+([f'exc == th_{X}({T}, {M}, e)',f'!exc ==> result_out == x_{X}({T}, {M}, e)'] if X not in('Null','Holder') else ['!exc','result_out is None'])
    kw=dict(hints=['assert(e.name_.skip(0) =~= e.name_);'])
    ens.append('!exc && result_out is Some ==> wf(*result_out->Some_0)')
    if X=='Select':
        S='{o:Option<Box<E_Select>>}'; I='e.data_.elements_[{i:it}]'
        kw=dict(invs=SAME+[NOTH.replace('th_ob','th_obo'),f"{S} is Some && *{S}->Some_0 == ({el('Select','e.meta_',data='D_Select { elements_: xs_Select('+T+', '+M+', e.data_.elements_, {i:it}) }')}) && wf_dSelect((*{S}->Some_0).data_)"],
          loophints=[f'if 0 <= {{i:it}} < e.data_.elements_.len() {{ ax_height_option(e, {{i:it}}); sub_Select(e.data_, {{i:it}}); lem_opt({T}, {M}, {I}); }} lem_select({T}, {M}, e, {S});'])
    if X=='Enum':
        S='{o:Option<Box<E_Enum>>}'; A='e.attributes_.elements'; AR=lambda k: f'(*{A}[{k}].1->Some_0)->Array_0.data_'
        HA=lambda k: f'lem_attr(e.attributes_, {k}); full_clone(*{A}[{k}].1->Some_0); lem_en({T}, {M}, e, {k});'
        kw=dict(hints=kw['hints']+[f'if e.data_.value_ is Some {{ assert(decreases_to!(e => *e.data_.value_->Some_0)); }} assert(xo_ob({T}, {M}, e.data_.value_) == (if e.data_.value_ is Some {{ xo({T}, {M}, *e.data_.value_->Some_0) }} else {{ None }})); assert(th_ob({T}, {M}, e.data_.value_) == (e.data_.value_ is Some && th({T}, {M}, *e.data_.value_->Some_0))); assert(tm_Enum({T}, {M}, e) == (e.hasValue_ && th_ob({T}, {M}, e.data_.value_))); assert(xattr({T}, {M}, {A}, 0) == Seq::<{ENT}>::empty());'],
          invs=SAME+['!tm_Enum('+T+', '+M+', e)',f'{S} is Some && *{S}->Some_0 == (E_Enum {{ attributes_: IE {{ elements: xattr({T}, {M}, {A}, {{i:it}}) }}, ..xm_Enum({T}, {M}, e) }}) && wf(El::Enum(*{S}->Some_0)) && (forall|j: int| 0 <= j < {{i:it}} ==> !th_en({T}, {M}, #[trigger] {A}[j]))',
            f'{OO} == xs({T}, {M}, {AR("{k:^it}")}.elements_, {{i:it}}) && wf_dArray(D_Array {{ elements_: {OO} }}) && (forall|j: int| 0 <= j < {{i:it}} ==> !th_ob({T}, {M}, #[trigger] {AR("{k:^it}")}.elements_[j]))'],
          loophints=[f'assert(e.name_.skip(0) =~= e.name_); lem_enth({T}, {M}, e); if {S} is Some && 0 <= {{i:it}} < {A}.len() {{ {HA("{i:it}")} }}',
            f'assert(e.name_.skip(0) =~= e.name_); let a_ = {AR("{k:^it}")}; lem_arr({OO}); lem_enth({T}, {M}, e); if {OO}.len() >= 0 && 0 <= {{k:^it}} < {A}.len() && {A}[{{k:^it}}].1 is Some && *{A}[{{k:^it}}].1->Some_0 is Array {{ {HA("{k:^it}")} if 0 <= {{i:it}} < a_.elements_.len() {{ sub_Array(a_, {{i:it}}); lem_ob({T}, {M}, a_.elements_, {{i:it}}); }} }}'])
    if X=='Member': kw=dict(hints=['reveal(fbit);',MB('key_'),MB('value_')])
    if X=='Ref': kw=dict(hints=[f'full_clone(El::Ref(e)); reveal(fbit); lem_push_reg({T}, {M}, e.data_.data_); if reg({T}, e.data_.data_) is Some {{ lem_regx({T}, e.data_.data_); }}'])
    VC.append(C(f'visit_{X}',V,['this_:graph','e'],sig=lambda f,X=X: poly.kind_of_ty(f.pt[0].to)==X,throws=True,requires=RQ+[f'wf(El::{X}(e))'],ensures=ens,dec=DEC('e',2),size_req=False,**kw))
VC.append(C('visit',V,['this_:graph','e'],sig=lambda f: poly.is_base(f.pt[0].to),throws=True,requires=RQ+['wf(e)'],ensures=['!exc ==> members_out == members','registry_out == registry',f'exc == th({T}, {M}, e)',f'!exc ==> result_out == x({T}, {M}, e)','!exc && result_out is Some ==> wf(*result_out->Some_0)'],dec=DEC('e',3),size_req=False))
CONTRACTS+=fz(VC)
LIB+='''
pub proof fn lem_set_wf(s: Seq<ENT>, k: Seq<u8>, v: OB) requires wf_ie(IE { elements: s }), v is Some, wf_ob(v) ensures wf_ie(IE { elements: ie_set(s, k, v) }) { lem_idx(s, k); let r = ie_set(s, k, v); assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).1 is Some && wf_ob(r[i].1) by { if i < s.len() && r[i] == s[i] { assert(wf_ob(s[i].1)); } } }
pub proof fn lem_without_wf(s: Seq<ENT>, k: Seq<u8>) requires wf_ie(IE { elements: s }) ensures wf_ie(IE { elements: ie_without(s, k) }) { lem_without_len(s, k); let r = ie_without(s, k); assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).1 is Some && wf_ob(r[i].1) by { assert(s.contains(r[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == r[i]; assert(wf_ob(s[j].1)); } }
pub proof fn lem_clone_wf(e: El, f: int) requires wf(e) ensures wf(clone_sp(e, f)) { lem_without_wf(meta(e).elements, id_key()); }
pub proof fn lem_regx(t: Types, n: Seq<u8>) requires wf_reg(t), reg(t, n) is Some ensures wf(reg(t, n)->Some_0) { lem_idx(t, n); }
pub proof fn lem_meta_wf(e: El, m: IE) requires wf(e), wf_ie(m) ensures wf(el_set_meta_(e, m)) { }
pub proof fn lem_layer_wf(t: Types, n: Seq<u8>) requires wf_reg(t), reg(t, n) is Some ensures wf(*layer(t, n)->Some_0) { lem_regx(t, n); let c = clone_sp(reg(t, n)->Some_0, 23); lem_clone_wf(reg(t, n)->Some_0, 23); let s = str_ob(n); assert(wf(*s->Some_0)); lem_set_wf(meta(c).elements, REFK, s); lem_meta_wf(c, IE { elements: ie_set(meta(c).elements, REFK, s) }); }
pub open spec fn wf_layers(v: Seq<ENT>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1 is Some && wf_ob(v[i].1) }
pub proof fn lem_inh_wf(t: Types, n: Seq<u8>, v: Seq<ENT>) requires wf_reg(t), wf_layers(v) ensures wf_layers(inh(t, n, v)), v.len() == 0 && reg(t, n) is None ==> inh(t, n, v).len() == 0 decreases free(t, names(v))
{ if reg(t, n) is Some && !is_base_name(n) && !names(v).contains(n) { lem_layer_wf(t, n); lem_names_push(v, (n, layer(t, n))); lem_free(t, names(v), n); let w = v.push((n, layer(t, n))); assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).1 is Some && wf_ob(w[i].1) by { if i < v.len() { assert(w[i] == v[i]); } } lem_inh_wf(t, ename(reg(t, n)->Some_0), w); } }
pub proof fn lem_tree_wf(t: Types, n: Seq<u8>) requires wf_reg(t) ensures wf(El::Extend(tree(t, n))), layers(t, n).len() > 0 ==> reg(t, n) is Some
{ lem_inh_wf(t, n, Seq::empty()); let v = inh(t, n, Seq::empty()); let s = layers(t, n); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) is Some && wf_ob(s[i]) by { assert(s[i] == v[v.len() - 1 - i].1); } }
pub proof fn lem_nms(v: Seq<ENT>, n: Seq<u8>) ensures names(v).contains(n) == exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == n
{ if names(v).contains(n) { let i = choose|i: int| 0 <= i < names(v).len() && names(v)[i] == n; assert(v[i].0 == n); } if exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == n { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == n; assert(names(v)[i] == n); } }
pub proof fn lem_inh(t: Types, n: Seq<u8>, v: Seq<ENT>) requires wf_reg(t) ensures reg(t, n) is Some ==> ({ let p = reg(t, n)->Some_0; let c = clone_sp(p, 23); wf(p) && layer(t, n) == Some(Box::new(with_meta(c, REFK, str_ob(n)))) && el_name_(p) == ename(p) && el_meta_(c) == meta(c) && names(v).contains(n) == (exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == n) && (forall|x: ENT, y: ENT, i: int| #![trigger v.push(x).update(i, y)] i == v.len() ==> v.push(x).update(i, y) == v.push(y)) && (!names(v).contains(n) ==> free(t, names(v.push((n, layer(t, n))))) < free(t, names(v))) })
{ if reg(t, n) is Some { lem_regx(t, n); lem_nms(v, n); lem_names_push(v, (n, layer(t, n))); reveal(fbit); assert forall|x: ENT, y: ENT, i: int| #![trigger v.push(x).update(i, y)] i == v.len() implies v.push(x).update(i, y) == v.push(y) by { assert(v.push(x).update(i, y) =~= v.push(y)); } if !names(v).contains(n) { lem_free(t, names(v), n); } } }
pub proof fn lem_rev(v: Seq<ENT>, i: int) requires 0 <= i <= v.len() ensures v.take(v.len() as int) == v, i == 0 ==> rev_layers(v.take(i)) == Seq::<OB>::empty(), i > 0 ==> rev_layers(v.take(i)) == seq![v[i - 1].1] + rev_layers(v.take(i - 1)),
  forall|x: ENT| i > 0 ==> (#[trigger] v.update(i - 1, x)).take(i - 1) == v.take(i - 1)
{ assert(v.take(v.len() as int) =~= v); if i == 0 { assert(rev_layers(v.take(i)) =~= Seq::<OB>::empty()); } else { assert(rev_layers(v.take(i)) =~= seq![v[i - 1].1] + rev_layers(v.take(i - 1))); assert forall|x: ENT| (#[trigger] v.update(i - 1, x)).take(i - 1) == v.take(i - 1) by { assert(v.update(i - 1, x).take(i - 1) =~= v.take(i - 1)); } } }
pub proof fn lem_rev0() ensures rev_layers(Seq::empty()) == Seq::<OB>::empty() { assert(rev_layers(Seq::empty()) =~= Seq::<OB>::empty()); }
pub proof fn lem_circ(t: Types, n: Seq<u8>, k: int, e: El) requires wf_reg(t), root_at(t, n, k, e) ensures root_of(t, n) == e, wf(e), wf(circ(t, n)), ({ let c = clone_sp(e, 19); circ(t, n) == with_meta(c, REFK, str_ob(n)) && el_meta_(c) == meta(c) })
{ lem_root(t, n, e); lem_regx(t, anc(t, n, k)); let c = clone_sp(e, 19); lem_clone_wf(e, 19); let s = str_ob(n); assert(wf(*s->Some_0)); lem_set_wf(meta(c).elements, REFK, s); lem_meta_wf(c, IE { elements: ie_set(meta(c).elements, REFK, s) }); }
pub proof fn lem_id2ref(e: El) requires wf(e) ensures ({ let m = meta(e); let i = ie_idx(m.elements, IDK); el_meta_(e) == m && wf_ie(m) && 0 <= i <= m.elements.len() && (i < m.elements.len() ==> m.elements[i].1 is Some && wf(*m.elements[i].1->Some_0) && clone_sp(*m.elements[i].1->Some_0, 15) == *m.elements[i].1->Some_0 && el_hasValue_(*m.elements[i].1->Some_0) == hasval(*m.elements[i].1->Some_0)) }), el_set_meta_(e, el_meta_(e)) == e, forall|m: IE| el_meta_(#[trigger] el_set_meta_(e, m)) == m, forall|m: IE, n: IE| #[trigger] el_set_meta_(el_set_meta_(e, m), n) == el_set_meta_(e, n), forall|m: IE| wf_ie(m) ==> wf(#[trigger] el_set_meta_(e, m))
{ lem_idx(meta(e).elements, IDK); sub_at(meta(e), IDK); let i = ie_idx(meta(e).elements, IDK); if i < meta(e).elements.len() { full_clone(*meta(e).elements[i].1->Some_0); } }
pub proof fn lem_attr(m: IE, i: int) requires wf_ie(m), 0 <= i < m.elements.len() ensures m.elements[i].1 is Some, wf(*m.elements[i].1->Some_0), decreases_to!(m => *m.elements[i].1->Some_0)
{ assert(wf_ob(m.elements[i].1)); assert(decreases_to!(m => m.elements)); assert(decreases_to!(m.elements => m.elements[i])); assert(decreases_to!(m.elements[i] => m.elements[i].1)); }
// the wrapper El::Option adds one level to an option that lies several levels below its select
#[verifier::external_body] pub proof fn ax_height_option(e: E_Select, i: int) requires 0 <= i < e.data_.elements_.len(), e.data_.elements_[i] is Some ensures decreases_to!(e => El::Option(*e.data_.elements_[i]->Some_0)) { }
pub proof fn lem_arr(s: Seq<OB>) requires wf_dArray(D_Array { elements_: s }) ensures wf_ob(Some(Box::new(El::Array(ARRS)))) { let a = ARRS; assert(wf_ie(a.meta_)); assert(wf_ie(a.attributes_)); assert(wf(El::Array(a))); let p: OB = Some(Box::new(El::Array(a))); assert(wf_ob(p)); }
pub proof fn lem_opt(t: Types, m: Names, p: OBO) requires p is Some, reserved((*p->Some_0).name_), wf_obo(p) ensures ({ let y = *p->Some_0; wf(El::Option(y)) && th_obo(t, m, p) == th(t, m, El::Option(y)) && (xo(t, m, El::Option(y)) is Some && *xo(t, m, El::Option(y))->Some_0 is Option && xo_obo(t, m, p) == Some(Box::new((*xo(t, m, El::Option(y))->Some_0)->Option_0))) && reserved(((*xo(t, m, El::Option(y))->Some_0)->Option_0).name_) })
{ let y = *p->Some_0; let a = x_Option(t, m, y); let b = x(t, m, El::Option(y)); assert(b == a); assert(xo(t, m, El::Option(y)) == (match b { Some(b) => Some(b), None => Some(Box::new(El::Option(y))) })); assert(th(t, m, El::Option(y)) == th_Option(t, m, y)); cz_id(OPTN); }
pub proof fn lem_select(t: Types, m: Names, e: E_Select, o: Option<Box<E_Select>>) ensures th_Select(t, m, e) == (ex_Select(e) && th_seqo(t, m, e.data_.elements_)), (forall|j: int| 0 <= j < e.data_.elements_.len() && th_obo(t, m, #[trigger] e.data_.elements_[j]) ==> th_seqo(t, m, e.data_.elements_)), th_seqo(t, m, e.data_.elements_) ==> exists|j: int| 0 <= j < e.data_.elements_.len() && th_obo(t, m, #[trigger] e.data_.elements_[j]) { }
pub proof fn lem_ob(t: Types, m: Names, s: Seq<OB>, i: int) requires 0 <= i < s.len(), s[i] is Some ensures xo_ob(t, m, s[i]) == xo(t, m, *s[i]->Some_0), th_ob(t, m, s[i]) == th(t, m, *s[i]->Some_0), th_ob(t, m, s[i]) ==> th_seq(t, m, s), xs(t, m, s, i + 1) == xs(t, m, s, i).push(xo_ob(t, m, s[i])) { }
pub proof fn lem_enth(t: Types, m: Names, e: E_Enum) ensures reserved(e.name_) ==> th_Enum(t, m, e) == (tm_Enum(t, m, e) || th_at(t, m, e.attributes_.elements)), th_at(t, m, e.attributes_.elements) ==> exists|j: int| 0 <= j < e.attributes_.elements.len() && th_en(t, m, #[trigger] e.attributes_.elements[j]) { }
pub proof fn lem_en(t: Types, m: Names, e: E_Enum, k: int) requires 0 <= k < e.attributes_.elements.len() ensures ({ let s = e.attributes_.elements; let a = s[k]; let c = a.0 == ENK && a.1 is Some && *a.1->Some_0 is Array; let d = (*a.1->Some_0)->Array_0.data_; xattr(t, m, s, k + 1) == ie_set(xattr(t, m, s, k), a.0, xen(t, m, a)) && xen(t, m, a) == (if c { Some(Box::new(El::Array(ENARR))) } else { a.1 }) && th_en(t, m, a) == (c && th_seq(t, m, d.elements_)) && (th_en(t, m, a) ==> th_at(t, m, s)) && (th_seq(t, m, d.elements_) ==> exists|j: int| 0 <= j < d.elements_.len() && th_ob(t, m, #[trigger] d.elements_[j])) }) { }
pub proof fn lem_push_reg(t: Types, m: Names, n: Seq<u8>) requires wf_reg(t), all_reg(t, m) ensures m.contains(n) == (exists|i: int| 0 <= i < m.len() && #[trigger] m[i] == n), !m.contains(n) && reg(t, n) is Some ==> free(t, m.push(n)) < free(t, m) && all_reg(t, m.push(n)), m.push(n).drop_last() == m { lem_pop(m, n); if !m.contains(n) && reg(t, n) is Some { lem_free(t, m, n); lem_all_reg(t, m, n); } }
pub proof fn lem_named(t: Types, m: Names, n: Seq<u8>) requires wf_reg(t), all_reg(t, m) ensures m.contains(n) ==> reg(t, n) is Some, m.contains(n) == (exists|i: int| 0 <= i < m.len() && #[trigger] m[i] == n),
  forall|k: int, e: El| #[trigger] root_at(t, n, k, e) ==> root_of(t, n) == e && wf(e) && wf(circ(t, n)) && ({ let c = clone_sp(e, 19); circ(t, n) == with_meta(c, REFK, str_ob(n)) && el_meta_(c) == meta(c) }),
  !m.contains(n) && reg(t, n) is Some ==> free(t, m.push(n)) < free(t, m) && all_reg(t, m.push(n)), wf(El::Extend(tree(t, n))), layers(t, n).len() > 0 ==> reg(t, n) is Some, layers(t, n).len() == 0 ==> !th_seq(t, m.push(n), layers(t, n)), m.push(n).drop_last() == m,
  forall|s: Seq<OB>, p: OB| #![trigger s.push(p)] wf_dExtend(D_Extend { elements_: s }) && p is Some && wf_ob(p) ==> wf_dExtend(D_Extend { elements_: s.push(p) })
{ lem_pop(m, n); lem_tree_wf(t, n); assert forall|s: Seq<OB>, p: OB| #![trigger s.push(p)] wf_dExtend(D_Extend { elements_: s }) && p is Some && wf_ob(p) implies wf_dExtend(D_Extend { elements_: s.push(p) }) by { let d = D_Extend { elements_: s.push(p) }; assert forall|i: int| 0 <= i < d.elements_.len() implies (#[trigger] d.elements_[i]) is Some && wf_ob(d.elements_[i]) by { if i < s.len() { assert(d.elements_[i] == s[i]); let f = D_Extend { elements_: s }; assert(wf_ob(f.elements_[i])); } } } if !m.contains(n) && reg(t, n) is Some { lem_free(t, m, n); lem_all_reg(t, m, n); }
  assert forall|k: int, e: El| #[trigger] root_at(t, n, k, e) implies root_of(t, n) == e && wf(e) && wf(circ(t, n)) && ({ let c = clone_sp(e, 19); circ(t, n) == with_meta(c, REFK, str_ob(n)) && el_meta_(c) == meta(c) }) by { lem_circ(t, n, k, e); } }
'''.replace('ARRS',el('Array',data='D_Array { elements_: s }')).replace('OPTN',elib.lit('option')).replace('ENARR',el('Array',data='D_Array { elements_: xs(t, m, d.elements_, d.elements_.len() as int) }')).replace('OBO',OBO).replace('ENK',ENK).replace('ENT',ENT).replace('REFK',REFK).replace('IDK',IDK).replace('OB',OB)
