#!/bin/bash
# bt.sh replay.json [flavour]: backtrace of a crashing replay
F=${2:-plain}; B=$(dirname $0)/../build/$F/sim
SIM_NO_SIG=1 gdb -q -batch -ex "set follow-fork-mode child" -ex "handle SIGALRM nostop" -ex run -ex bt --args $B replay file=$1 verbose 2>&1 | grep -E "^#|SIG" | head -${T:-14}
