"""C27: markdown nodes: construction, copy and assignment"""
from vx.engine import Contract as C
from vx import poly
ID='C27'
TUS=['packages/apib-parser/src/markdown-parser/MarkdownNode.cc']
ENG=poly.PEng
def UNIT(u): u.rawptr=True
LIB='''
// a node owns a (possibly empty) sequence of children, to any depth; m_parent is an address that is never followed here (0: none)
pub open spec fn kids(n: S_mdp_MarkdownNode) -> Seq<S_mdp_MarkdownNode> { *n.m_children->Some_0 }
pub open spec fn wf(n: S_mdp_MarkdownNode) -> bool { n.m_children is Some }
'''
ASSUME=['the copy constructor of std::deque copies every child with the copy constructor of MarkdownNode, whose contract (identity, on nodes of smaller height) is the one proved here',
 'source and target of an assignment are values here: an assignment between a node and one of its own descendants is decided by the replay harness (bounded, under AddressSanitizer)']
N='mdp::MarkdownNode::'
CONTRACTS=[
 C('ctor',N+'MarkdownNode',['type_','parent_:raw','text_','data_'],sig=lambda f: len(f.pt)==4,ensures=['ret.type_ == type_','ret.m_parent == parent_','ret.text == text_','ret.data == data_','ret.sourceMap.len() == 0','wf(ret)','kids(ret).len() == 0']),
 C('copy',N+'MarkdownNode',['rhs'],sig=lambda f: len(f.pt)==1,requires=['wf(rhs)'],ensures=['wf(ret)','ret == rhs']),
 C('assign',N+'operator=',['this_','rhs'],requires=['wf(this_)','wf(rhs)'],ret='=this_',ensures=['wf(this__out)','this__out == rhs']),
 C('setParent',N+'setParent',['this_','p:raw'],ensures=['this__out == (S_mdp_MarkdownNode { m_parent: p, ..this_ })']),
 C('hasParent',N+'hasParent',['this_'],ensures=['ret == (this_.m_parent != 0)']),
 C('children',N+'children',['this_'],sig=lambda f: f.const,requires=['wf(this_)'],ret='val',ensures=['!exc','ret == kids(this_)'],throws=True),
]
