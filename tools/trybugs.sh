#!/bin/bash
# trybugs.sh ID...: in a private copy of /repo bound over /repo in its own mount namespace,
# apply a seeded change, build, run the stable tests, the demo and its property's check.
one() {
  i=$1; W=$(mktemp -d /tmp/tb_XXXXXX)
  cp -a /repo $W/repo; cp -a /verif $W/verif; rm -rf $W/verif/.git
  export i W V
  unshare -Urm bash -c '
  mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /verif
  P=$(python3 -c "import json;print(json.load(open(\"seeded/$i/meta.json\"))[\"property\"])")
  git -C /repo -c safe.directory=/repo checkout -q -- . ; cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1; bash /verif/seeded/$i/demo.sh >/dev/null 2>&1; D0=$?
  git -C /repo -c safe.directory=/repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; exit; }
  bash /opt/vp/build.sh >$W/sb.log 2>&1; B=$?
  bash /opt/vp/test.sh $W/st.json >/dev/null 2>&1
  N=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); r=json.load(open(\"$W/st.json\"))
def names(d):
    for k in (\"passed\",\"stable\",\"tests\"):
        if k in d and isinstance(d[k],list): return set(x if isinstance(x,str) else x.get(\"name\") for x in d[k])
    return set()
print(len(names(b)-names(r)))")
  bash /verif/seeded/$i/demo.sh >/dev/null 2>&1; D1=$?
  cd /verif; timeout 900 python3 check.py $P quick > $W/sc.log 2>&1; C=$?
  echo "$i [$P] build=$B lost=$N demo=$D0/$D1 check rc=$C: $(grep -ah "VIOLATION\|proof:\|FAIL" $W/sc.log | cut -c1-150 | head -3 | tr "\n" " ")"; [ -n "$V" ] && cat $W/sc.log
  true'
  rm -rf "$W"
}
export -f one
printf '%s\n' "$@" | xargs -P ${J:-3} -I{} bash -c 'one {}'
