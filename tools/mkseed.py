#!/usr/bin/env python3
"""mkseed.py ID: (re)build /verif/seeded/ID from seeds/ID.py-style dict in tools/seeds.py, confirming it in a scratch copy."""
import sys, os, subprocess, json, shutil, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+'/tools')
from seeds import SEEDS
def refract_sources():
    import glob
    b='/repo/packages/drafter/src/'
    l=[b+'refract/'+x+'.cc' for x in('Element','InfoElements','Registry','Query','Utils','VisitorUtils','ComparableVisitor','TypeQueryVisitor','IsExpandableVisitor','ExpandVisitor','PrintVisitor')]
    l+=sorted(glob.glob(b+'refract/dsd/*.cc'))+[b+'utils/log/Trivial.cc']
    return [os.path.relpath(x,'/repo') for x in l if os.path.exists(x)]
INC='-I$R/packages/boost -I$R/packages/apib/include -I$R/packages/apib/src -I$R/packages/apib-parser/include -I$R/packages/apib-parser/src/snowcrash -I$R/packages/apib-parser/src/markdown-parser -I$R/packages/apib-parser/src -I$R/packages/drafter/src'
def sh(c,cwd=None): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
def make(i):
    s=SEEDS[i]; s['srcs']=[y for x in s.get('srcs',[]) for y in (refract_sources() if x=='@REFRACT' else [x])]; d=f"{V}/seeded/{i}"; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='seed_',dir='/tmp')
    try:
        sh(f"cp -a /repo {w}/repo"); r=w+'/repo'; sh('git checkout -q -- . ',r)
        for f,old,new in s['edits']:
            p=f"{r}/{f}"; t=open(p).read()
            if t.count(old)!=1: print(i,'EDIT',f,'count',t.count(old)); return False
            open(p,'w').write(t.replace(old,new))
        diff=subprocess.run('git diff',shell=True,cwd=r,stdout=subprocess.PIPE,text=True).stdout
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.cc','w').write(s['demo'])
        if s.get('stubs'): shutil.copytree(V+'/tus/stubs/mpark',d+'/mpark',dirs_exist_ok=True)
        flags=s.get('flags','-fsanitize=address,undefined -fno-sanitize-recover=undefined' if s.get('san') else '')
        open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
R="$PWD"; D="$(cd "$(dirname "$0")" && pwd)"; W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
g++ -std={'c++17 -include cstdint -I$D' if s.get('stubs') else 'c++14'} -O1 -w -DNDEBUG -DDRAFTER_BUILD_STATIC=1 {flags} {INC} "$D/demo.cc" {' '.join('"$R/'+x+'"' for x in s.get('srcs',[]))} -o "$W/demo" -lpthread || exit 3
cd "$W" && timeout 60 ./demo
''')
        json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
        ok=sh(f"bash {d}/demo.sh",'/repo'); bad=sh(f"bash {d}/demo.sh",r)
        # existing tests in the copy
        b=sh(f"bash -c 'sed s#/repo#{r}#g /opt/vp/build.sh > {w}/build.sh; sed s#/repo#{r}#g /opt/vp/test.sh > {w}/test.sh; true'")
        print(i,'demo',ok.returncode,bad.returncode,ok.stdout[-200:] if ok.returncode else '')
        return ok.returncode==0 and bad.returncode!=0
    finally: shutil.rmtree(w,ignore_errors=True)
for i in sys.argv[1:] or SEEDS: make(i)
