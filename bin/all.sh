#!/bin/bash
# all.sh SECS ID...: short searches, for development
here=$(cd "$(dirname "$0")/.." && pwd); export MDSIM_HOME=$here RUST_BACKTRACE=0 MDSIM_SECS=$1; shift
"$here/bin/build.sh" || exit 2
for i in "$@"; do timeout 400 "$here/.build/sim/debug/mdsim" check $i quick 2>&1 | tail -${TAIL:-20} | cut -c1-${CUT:-500}; done
