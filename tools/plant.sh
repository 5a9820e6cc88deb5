#!/bin/bash
# plant.sh ID...: confirm planted bugs in a scratch copy (/tmp/plant): applies, builds, tests pass, demo ok before / fails after
P=/tmp/plant
if [ ! -d $P ]; then git clone -q /repo $P; fi
git -C $P fetch -q /repo HEAD && git -C $P reset -q --hard FETCH_HEAD
sed "s#/repo#$P#g" /opt/vp/build.sh > /tmp/plant_build.sh
sed "s#/repo#$P#g; s#/opt/vp/build.sh#/tmp/plant_build.sh#" /opt/vp/test.sh > /tmp/plant_test.sh
V=$(cd $(dirname $0)/..; pwd)
grep -qs "HOME_DIRECTORY:INTERNAL=$P$" $P/_build/CMakeCache.txt || rm -rf $P/_build
bash /tmp/plant_build.sh >/tmp/plant_b.log 2>&1 || { tail -5 /tmp/plant_b.log; exit 1; }
for id in "$@"; do
  S=$V/seeded/$id
  git -C $P checkout -q -- . ; bash /tmp/plant_build.sh >/tmp/plant_b.log 2>&1
  D=$(mktemp -d /tmp/demoXXXX); cp -r $S/. $D/; rm -f $D/patch.diff $D/meta.json
  (cd $P && timeout 300 bash $D/demo.sh >/tmp/plant_d0.log 2>&1); r0=$?
  git -C $P apply $S/patch.diff || { echo "$id: patch does not apply"; rm -rf $D; continue; }
  bash /tmp/plant_build.sh >/tmp/plant_b.log 2>&1 || { echo "$id: does not build"; grep -m3 error: /tmp/plant_b.log; git -C $P checkout -q -- .; rm -rf $D; continue; }
  (cd $P && timeout 300 bash $D/demo.sh >/tmp/plant_d1.log 2>&1); r1=$?
  if [ -z "$NOTEST" ]; then bash /tmp/plant_test.sh /tmp/plant_t.json >/tmp/plant_t.log 2>&1; t=$(python3 $V/tools/baseline.py /tmp/plant_t.json); else t=skipped; fi
  echo "$id: demo before=$r0 after=$r1 ($(tail -1 /tmp/plant_d1.log)) tests: $t"
  [ $r0 = 0 ] || tail -3 /tmp/plant_d0.log
  git -C $P checkout -q -- . ; rm -rf $D
done
