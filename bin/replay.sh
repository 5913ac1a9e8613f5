#!/bin/bash
# replay.sh FILE: rebuild and repeat one recorded run exactly.
here=$(cd "$(dirname "$0")/.." && pwd)
export MDSIM_HOME=$here RUST_BACKTRACE=0
"$here/bin/build.sh" || exit 2
exec "$here/.build/sim/debug/mdsim" replay "$1"
