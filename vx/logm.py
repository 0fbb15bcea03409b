"""Log messages (utils/log): writing one has no effect on the values computed; its operands are evaluated."""
from .core import *
from .engine import *
from . import stl
ASSUME=['writing a log message (utils/log) affects nothing but the log: the logger is not modelled, the operands of the message are evaluated']
L='drafter::utils::log::'
def unit(u):
    u.special['LOG']=lambda u,t: 'int' if stdq(t.n) in(L+'trivial_log',L+'trivial_entry') else None
def z(t): return S('0','int',t)
@stl.m(L+'trivial_log::instance')
def _(E,st,f,t,obj,vs,e):
    st,pl=E.newcell(st,z(f.rt.to),'log'); yield st,Ref(pl)
@stl.m(L+'trivial_entry::trivial_entry')
def _(E,st,f,t,obj,vs,e): yield st,z(t)
@stl.m(L+'trivial_entry::operator<<')
def _(E,st,f,t,obj,vs,e): yield st,obj
@stl.m(L+'trivial_entry::~trivial_entry')
def _(E,st,f,t,obj,vs,e): yield st,VOID
