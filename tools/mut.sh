#!/bin/bash
# mut.sh 'sed expr' file prop...: apply a one-line change to a scratch copy, run the checks against it
D=$(mktemp -d /tmp/mutXXXX); cp -a /repo/src /repo/fast_positive $D/
( cd $D && sed -i "$1" $2 && diff -r /repo/$2 $2 | head -${DL:-8} )
F=$2; shift 2
for p in "$@"; do SIM_REPO=$D SIM_BUILD=/tmp/mutbuild SIM_EVID=/tmp/mutev SIM_SECS=${S:-10} python3 $(dirname $0)/../check.py $p 2>&1 | tail -3; done
rm -rf $D
