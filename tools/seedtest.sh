#!/bin/bash
# Confirms planted bugs in a copy of /repo bound over /repo in a private mount namespace. usage: seedtest.sh ID...
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; w=/tmp/seedtest/$id; rm -rf "/tmp/seedtest/$id"; mkdir -p $w
  cp -a /repo $w/repo
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $V/seeded/$id/meta.json)
  cp -a $V/seeded/$id $w/demo
  [ -d $V/.build ] && cp -a $V/.build $w/build
  unshare -Urm bash -c '
    w=$1; id=$2; prop=$3; V=$4
    mount --bind $w/repo /repo; cd /repo
    bash $w/demo/demo.sh > $w/demo0.log 2>&1; d0=$?
    git apply $V/seeded/$id/patch.diff || { echo "$id PATCH-DOES-NOT-APPLY"; exit; }
    bash /opt/vp/build.sh > $w/build.log 2>&1; b=$?
    exec 9>/tmp/seedtest/lock; flock 9
    bash /opt/vp/test.sh $w/out.json > $w/test.log 2>&1
    t=$(python3 - $w/out.json <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
def passed(x):
    for k in ("stable","passed","tests","stable_pass"):
        if k in x:
            v=x[k]
            return set(v) if isinstance(v,list) else {n for n,s in v.items() if s in ("passed",True)}
    raise SystemExit("keys "+str(list(x)))
m=passed(b)-passed(o); print(len(m), sorted(m)[:2])
P
)
    flock -u 9
    bash $w/demo/demo.sh > $w/demo1.log 2>&1; d1=$?
    SA_BUILD=$w/build SA_EVIDENCE=$w/ev $V/check $prop > $w/check.log 2>&1; c=$?
    v=$(grep -c "VIOLATION property=$prop" $w/check.log)
    ok=BAD; [ $d0 = 0 ] && [ $b = 0 ] && [ $d1 != 0 ] && [ $d1 != 3 ] && [ "${t%% *}" = 0 ] && ok=GOOD
    echo "$id $prop $ok demo0=$d0 build=$b lost=$t demo1=$d1 check=$c violations=$v"
  ' _ $w $id $prop $V
  rm -rf "/tmp/seedtest/$id/repo" "/tmp/seedtest/$id/build"
}
mkdir -p /tmp/seedtest
for i in "$@"; do one $i & while [ $(jobs -r | wc -l) -ge 4 ]; do wait -n; done; done; wait
