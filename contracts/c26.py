"""C26: option accessors"""
from vx.engine import Contract as C
from vx import run
ID='C26'
TUS=['packages/drafter/src/options.cc','packages/drafter/src/drafter.cc']
FLAGS=run.STUBS
LIB='''
pub open spec fn pwf(o: S_drafter_parse_options) -> bool { o.flags.len() == 3 }
pub open spec fn swf(o: S_drafter_serialize_options) -> bool { o.flags.len() == 1 }
pub open spec fn YAML() -> int { 0 }
'''
P=dict(requires=['pwf(opts)']); S=dict(requires=['swf(opts)'])
def get(n,e,w): return C(n,'drafter::'+n,['opts'],requires=[f'opts_null || {w}(opts)'],ensures=[e])
def setb(n,i): return C(n,'drafter_'+n,['opts'],requires=['!opts_null','pwf(opts)'],ensures=['pwf(opts_out)',f'opts_out.flags =~= opts.flags.update({i}, true)'])
CONTRACTS=[
 get('is_name_required','ret == (!opts_null && opts.flags[0])','pwf'),
 get('is_skip_gen_bodies','ret == (!opts_null && opts.flags[1])','pwf'),
 get('is_skip_gen_body_schemas','ret == (!opts_null && opts.flags[2])','pwf'),
 get('are_sourcemaps_included','ret == (!opts_null && opts.flags[0])','swf'),
 get('get_format','ret as int == (if opts_null { YAML() } else { opts.format as int })','swf'),
 setb('set_name_required',0),setb('set_skip_gen_bodies',1),setb('set_skip_gen_body_schemas',2),
 C('set_sourcemaps_included','drafter_set_sourcemaps_included',['opts'],requires=['!opts_null','swf(opts)'],ensures=['swf(opts_out)','opts_out.flags =~= seq![true]','opts_out.format == opts.format']),
 C('set_format','drafter_set_format',['opts','fmt'],requires=['!opts_null','swf(opts)'],ensures=['opts_out.flags =~= opts.flags','opts_out.format == fmt']),
 C('init_parse','drafter_init_parse_options',[],ret='val',ensures=['!ret_null','pwf(ret)','ret.flags =~= seq![false, false, false]']),
 C('init_serialize','drafter_init_serialize_options',[],ret='val',ensures=['!ret_null','swf(ret)','ret.flags =~= seq![false]','ret.format as int == YAML()']),
]
