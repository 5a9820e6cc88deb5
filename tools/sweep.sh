#!/bin/bash
# sweep.sh world secs flavour props... : one parallel search per property
W=$1; S=$2; F=$3; shift 3
python3 $(dirname $0)/../build.py $F 2>&1 | grep -E "error|undefined" 
for p in "$@"; do ( $(dirname $0)/dbg.sh $W $p $S $F > /tmp/sweep_$p.txt 2>&1 ) & done; wait
for p in "$@"; do echo "=== $p"; grep -v "  field" /tmp/sweep_$p.txt | cut -c1-${CUT:-400}; done
