"""C34: traversal and filtering"""
from vx.engine import Contract as C
from vx import poly, elib
from vx.graph import Graph
from vx.elib import SEQS
ID='C34'
TUS=['tus/refract_iterate.cc']
def UNIT(u): poly.unit(u); poly.elemptr(u)
ENG=poly.PEng
ALL=SEQS+('Select',)
def lib():
    o='''// document order: the element, then what its value holds (absent children skipped)
pub open spec fn pr_ob(p: Option<Box<El>>) -> Seq<El> decreases p { if p is Some { pr(*p->Some_0) } else { Seq::empty() } }
pub open spec fn pr_obo(p: Option<Box<E_Option>>) -> Seq<El> decreases p { if p is Some { pr_Option(*p->Some_0) } else { Seq::empty() } }
pub open spec fn pr_seq(s: Seq<Option<Box<El>>>, i: int) -> Seq<El> decreases s, i { if i <= 0 || i > s.len() { Seq::empty() } else { pr_seq(s, i - 1) + pr_ob(s[i - 1]) } }
pub open spec fn pr_seqo(s: Seq<Option<Box<E_Option>>>, i: int) -> Seq<El> decreases s, i { if i <= 0 || i > s.len() { Seq::empty() } else { pr_seqo(s, i - 1) + pr_obo(s[i - 1]) } }
// the present children, in order
pub open spec fn ch_ob(p: Option<Box<El>>) -> Seq<El> { if p is Some { seq![*p->Some_0] } else { Seq::empty() } }
pub open spec fn ch_obo(p: Option<Box<E_Option>>) -> Seq<El> { if p is Some { seq![El::Option(*p->Some_0)] } else { Seq::empty() } }
pub open spec fn ch_seq(s: Seq<Option<Box<El>>>, i: int) -> Seq<El> decreases i { if i <= 0 || i > s.len() { Seq::empty() } else { ch_seq(s, i - 1) + ch_ob(s[i - 1]) } }
pub open spec fn ch_seqo(s: Seq<Option<Box<E_Option>>>, i: int) -> Seq<El> decreases i { if i <= 0 || i > s.len() { Seq::empty() } else { ch_seqo(s, i - 1) + ch_obo(s[i - 1]) } }
// what a predicate selects, in order
pub open spec fn sel(q: int, s: Seq<El>) -> Seq<El> decreases s.len() { if s.len() == 0 { Seq::empty() } else { sel(q, s.drop_last()) + if fn_call(q, s.last()) { seq![s.last()] } else { Seq::empty() } } }
pub proof fn sel_add(q: int, a: Seq<El>, b: Seq<El>) ensures sel(q, a + b) == sel(q, a) + sel(q, b) decreases b.len() { reveal_with_fuel(sel, 2); if b.len() == 0 { assert(a + b =~= a); assert(sel(q, a) + sel(q, b) =~= sel(q, a)); } else { sel_add(q, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); let t: Seq<El> = if fn_call(q, b.last()) { seq![b.last()] } else { Seq::empty() }; assert(sel(q, a) + (sel(q, b.drop_last()) + t) =~= (sel(q, a) + sel(q, b.drop_last())) + t); } }
pub proof fn sel_adds(q: int) ensures forall|a: Seq<El>, b: Seq<El>| #[trigger] sel(q, a + b) == sel(q, a) + sel(q, b) { assert forall|a: Seq<El>, b: Seq<El>| #[trigger] sel(q, a + b) == sel(q, a) + sel(q, b) by { sel_add(q, a, b); } }
pub proof fn seq_laws() ensures forall|a: Seq<El>| #[trigger] (a + Seq::<El>::empty()) == a, forall|a: Seq<El>, b: Seq<El>, c: Seq<El>| #[trigger] ((a + b) + c) == a + (b + c), forall|a: Seq<El>, x: El| #[trigger] a.push(x) == a + seq![x] { assert forall|a: Seq<El>| #[trigger] (a + Seq::<El>::empty()) == a by { assert(a + Seq::<El>::empty() =~= a); } assert forall|a: Seq<El>, b: Seq<El>, c: Seq<El>| #[trigger] ((a + b) + c) == a + (b + c) by { assert((a + b) + c =~= a + (b + c)); } assert forall|a: Seq<El>, x: El| #[trigger] a.push(x) == a + seq![x] by { assert(a.push(x) =~= a + seq![x]); } }
pub proof fn sel_one(q: int) ensures sel(q, Seq::<El>::empty()) == Seq::<El>::empty(), forall|e: El| #[trigger] sel(q, seq![e]) == (if fn_call(q, e) { seq![e] } else { Seq::<El>::empty() }) { reveal_with_fuel(sel, 2); assert forall|e: El| #[trigger] sel(q, seq![e]) == (if fn_call(q, e) { seq![e] } else { Seq::<El>::empty() }) by { assert(seq![e].drop_last() =~= Seq::<El>::empty()); let t: Seq<El> = if fn_call(q, e) { seq![e] } else { Seq::empty() }; assert(Seq::<El>::empty() + t =~= t); } }
'''
    for X in poly.KINDS:
        b='Seq::empty()'
        if X in SEQS: b='if x.hasValue_ { pr_seq(x.data_.elements_, x.data_.elements_.len() as int) } else { Seq::empty() }'
        if X=='Select': b='if x.hasValue_ { pr_seqo(x.data_.elements_, x.data_.elements_.len() as int) } else { Seq::empty() }'
        if X=='Member': b='if x.hasValue_ { pr_ob(x.data_.key_) + pr_ob(x.data_.value_) } else { Seq::empty() }'
        o+=f"pub open spec fn pr_{X}(x: E_{X}) -> Seq<El> decreases x {{ seq![El::{X}(x)] + ({b}) }}\n"
        c='Seq::empty()'
        if X in SEQS: c='ch_seq(x.data_.elements_, x.data_.elements_.len() as int)'
        if X=='Select': c='ch_seqo(x.data_.elements_, x.data_.elements_.len() as int)'
        # child traversal of an element reached at the given depth
        o+=f"pub open spec fn cv_{X}(x: E_{X}, level: int) -> Seq<El> {{ if level == 1 {{ seq![El::{X}(x)] }} else {{ {c} }} }}\n"
    o+="pub open spec fn pr(e: El) -> Seq<El> decreases e { match e { "+', '.join(f'El::{X}(x) => pr_{X}(x)' for X in poly.KINDS)+" } }\n"
    o+="pub open spec fn cv(e: El, level: int) -> Seq<El> { match e { "+', '.join(f'El::{X}(x) => cv_{X}(x, level)' for X in poly.KINDS)+" } }\n"
    return o
LIB=lib()
def isfv(f): return True
class G(Graph):
    def functor(s,t): return t.k=='rec' and 'FilterVisitor' in (t.n or '')
LV={'filter':['apply','*','impl','*','apply','*','impl','*'],'=self':['apply','*','impl','*','iterator','*']}
GR=G('refract::Iterate<refract::Recursive>',['iterator'],LV)
GC=G('refract::Iterate<refract::Children>',['iterator'],dict(LV,strategy=['apply','*','impl','*','strategy','*']))
CONTRACTS=[]
# one contract per kind on Element<X>::content (visited through the graph), and the virtual call on top of them
def at(g):  # the instantiation is told apart by the contract name only: one module run handles one strategy at a time
    return g
def mk(tag,G_,spec,lvl):
    l=[]
    FO='filter_out == (S_refract_FilterVisitor { selected: filter.selected + sel(filter.query, %s), ..filter })'
    for X in poly.KINDS:
        s=(f'pr_{X}(this_)' if not lvl else f'cv_{X}(this_, strategy.level as int)')
        c=C(f'{tag}_{X}','refract::Element::content',['this_','v:graph'],sig=lambda f,X=X: f.rec is not None and f.rec.key==poly.ekey(X),ensures=[FO%s],dec=['this_','0int'],size_req=False,hints=['sel_adds(filter.query); sel_one(filter.query); seq_laws();'])
        if X in ALL:
            o='o' if X=='Select' else ''
            done=f'seq![El::{X}(this_)] + pr_seq{o}(this_.data_.elements_, {{i:it}})' if not lvl else f'ch_seq{o}(this_.data_.elements_, {{i:it}})'
            c.invs=[f'{{o:S_refract_FilterVisitor}} == (S_refract_FilterVisitor {{ selected: filter.selected + sel(filter.query, {done}), ..filter }})','{i:it} >= 0']+(['{s:S_refract_Children}.level == 1','strategy.level == 0'] if lvl else [])
            nx=f'pr_ob{o}' if not lvl else f'ch_ob{o}'
            c.loophints=[f'sel_one(filter.query); if 0 <= {{i:it}} < this_.data_.elements_.len() {{ let a_ = {done}; let b_ = {nx}(this_.data_.elements_[{{i:it}}]); sel_add(filter.query, a_, b_); assert((filter.selected + sel(filter.query, a_)) + sel(filter.query, b_) =~= filter.selected + sel(filter.query, a_ + b_)); assert(a_ + b_ =~= {done.replace("{i:it}","{i:it} + 1")}); assert(b_ + Seq::<El>::empty() =~= b_); }} assert(filter.selected + Seq::<El>::empty() =~= filter.selected);']
        l.append(c)
    c=C(tag,'refract::IElement::content',['this_','v:graph'],virt=True,ensures=[FO%('pr(this_)' if not lvl else 'cv(this_, strategy.level as int)')],dec=['this_','1int'],size_req=False)
    l.append(c)
    for c in l:
        c.graph=G_
        if lvl: c.requires.append('0 <= strategy.level <= 1'); c.ensures.append('strategy_out == strategy')
    return l
CONTRACTS+=mk('all',GR,'pr',False)
CONTRACTS+=[C('run_all','vf_all',['f:io','e'],ensures=['f_out == (S_refract_FilterVisitor { selected: f.selected + sel(f.query, pr(e)), ..f })'],size_req=False)]
CONTRACTS+=mk('kids',GC,'cv',True)
CONTRACTS+=[C('run_children','vf_children',['f:io','e'],ensures=['f_out == (S_refract_FilterVisitor { selected: f.selected + sel(f.query, cv(e, 0)), ..f })'],size_req=False),
 C('by_name','refract::query::Element::operator()',['this_','e'],ensures=['ret == (el_name_(e) == this_.name)','this__out == this_'],size_req=False),
 C('fv_empty','refract::FilterVisitor::empty',['this_'],ensures=['ret == (this_.selected.len() == 0)'])]
ASSUME=['the predicate of a filter is a function of the element (it has no effects)','elements are compared by value, not by address (the harness compares addresses)']
