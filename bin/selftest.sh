#!/bin/bash
# selftest.sh [COUNT] [SEED]: every run of every property twice, in two processes and in another
# grouping; the decisions taken and the event logs have to be the same.
here=$(cd "$(dirname "$0")/.." && pwd); export MDSIM_HOME=$here RUST_BACKTRACE=0
"$here/bin/build.sh" || exit 2
n=${1:-60}; seed=${2:-1}; bad=0; d=$(mktemp -d)
m="$here/.build/sim/debug/mdsim"
for i in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25; do
  "$m" selftest C$i $seed 0 1 $n 2>/dev/null | sort > "$d/a" &
  (for k in 2 0 1; do "$m" selftest C$i $seed $k 3 $n 2>/dev/null; done) | sort > "$d/b" &
  wait
  if [ -s "$d/a" ] && cmp -s "$d/a" "$d/b"; then echo "C$i: $(wc -l < "$d/a") runs, the same twice"; else echo "C$i: DIFFERENT"; bad=1; diff "$d/a" "$d/b" | head -4; fi
done
rm -r "$d"
exit $bad
