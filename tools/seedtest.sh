#!/bin/bash
# seedtest.sh ID [nocheck]: confirm a planted change in a scratch copy of /repo
id=$1; S=/verif/seeded/$id; W=/tmp/seedw.$id
rm -rf "/tmp/seedw.$id"; mkdir -p $W
cp -a /repo/. $W/ ; cd $W || exit 9; rm -rf "/tmp/seedw.$id/_build"
git checkout -q -- . ; git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "/tmp/seedw.$id"; exit 1; }
cp -r $S /tmp/seedd.$id
(cd /repo && timeout 300 bash /tmp/seedd.$id/demo.sh >/tmp/seedd.$id/o1 2>&1); d0=$?
(cd $W && timeout 300 bash /tmp/seedd.$id/demo.sh >/tmp/seedd.$id/o2 2>&1); d1=$?
t=ok
for f in compiletime_evaluation compiletime_manipulation compiletime_test diff_test equation_test runtime_test; do
  ( g++ -w -g0 -O0 -I$W $W/tests/src/$f.cpp -o $W/$f.x && timeout 60 $W/$f.x >/dev/null 2>&1 || echo $f > $W/fail.$f ) &
done
( g++ -w -g0 -O0 -I$W $W/tests/src/external_1.cpp $W/tests/src/external_2.cpp -o $W/ext.x && $W/ext.x >/dev/null 2>&1 || echo ext > $W/fail.ext ) &
wait
ls $W/fail.* >/dev/null 2>&1 && t="FAILS: $(cat $W/fail.*)"
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
c="-"; msg=""
if [ "$2" != nocheck ]; then msg=$(cd /verif && VM_REPO=$W VERIF_EVID=/tmp/seedd.$id python3 check.py $p 2>&1); c=$?; fi
echo "$id prop=$p demo0=$d0 demo1=$d1 tests=$t check=$c"
[ $d0 != 0 ] && tail -3 /tmp/seedd.$id/o1
echo "$msg" | head -3 | cut -c1-250
rm -rf "/tmp/seedw.$id" "/tmp/seedd.$id"
