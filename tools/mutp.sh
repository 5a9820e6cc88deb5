#!/bin/bash
# mutp.sh ID [prop...]: run the checks against a scratch copy with the planted bug ID applied
V=$(cd $(dirname $0)/..; pwd); id=$1; shift
D=$(mktemp -d /tmp/mutXXXX); cp -a /repo/src /repo/fast_positive $D/
( cd $D && git apply --unsafe-paths --directory=$D $V/seeded/$id/patch.diff 2>/dev/null || patch -s -p1 < $V/seeded/$id/patch.diff )
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
for p in "$@"; do echo "== $id $p: $(SIM_REPO=$D SIM_BUILD=/tmp/mutbuild SIM_EVID=/tmp/mutev SIM_SECS=${S:-38} python3 $V/check.py $p 2>&1 | tail -${T:-3})"; done
rm -rf $D
