#!/bin/bash
# dbg.sh world prop [secs] [flavour]: search one violation, minimise, show its trace
W=$1; P=$2; S=${3:-10}; F=${4:-plain}
D=$(mktemp -d); B=${SIM_BUILD:-$(dirname $0)/../build}/$F/sim
$B run world=$W prop=$P first=${FIRST:-1} stride=1 secs=$S status=$D/st > $D/out 2> $D/err; rc=$?
if [ $rc = 0 ]; then echo "no violation"; cat $D/out; rm -rf $D; exit; fi
seed=$(python3 -c "
import struct;print(struct.unpack('<Q',open('$D/st','rb').read(8))[0])")
$B min world=$W prop=$P seed=$seed out=$D/r.json budget=${BUD:-15} 2>/dev/null
$B replay file=$D/r.json verbose 2>$D/err | tail -${T:-40}
grep -E "ERROR|^    #|SUMMARY|region" $D/err | head -20
cp $D/r.json /tmp/last.json; rm -rf $D
