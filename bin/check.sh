#!/bin/bash
# check.sh ID [quick|thorough]: rebuild from /repo's working tree, then search.
here=$(cd "$(dirname "$0")/.." && pwd)
export MDSIM_HOME=$here RUST_BACKTRACE=0
"$here/bin/build.sh" || exit 2
exec "$here/.build/sim/debug/mdsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
