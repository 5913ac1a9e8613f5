#!/bin/bash
# seed.sh ID...: confirm planted changes in a scratch copy of /repo: demo quiet without, loud with the
# patch; builds; the stable tests pass.  Needs nothing but /tmp/plant.
. /opt/vp/env.sh
r=/tmp/plant/repo; export CARGO_TARGET_DIR=$r/target
[ -d $r ] || { mkdir -p /tmp/plant; cp -a /repo $r; }
cd $r || exit 1
b() { cargo test --workspace --features build-binary --no-run --locked --offline >/tmp/plant/build.log 2>&1; }
for id in "$@"; do
  d=/verif/seeded/$id
  git checkout -q -- . ; git pull -q /repo HEAD 2>/dev/null; git reset -q --hard "$(git -C /repo rev-parse HEAD)"
  git apply --check "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  rm -rf /tmp/plant/demo; cp -r "$d" /tmp/plant/demo; rm -f /tmp/plant/demo/patch.diff /tmp/plant/demo/meta.json
  b || { echo "$id: clean build failed"; continue; }
  if [ -z "${SKIPCLEAN:-}" ]; then
  timeout 300 bash /tmp/plant/demo/demo.sh >/tmp/plant/demo.log 2>&1; c=$?
  [ $c = 0 ] || { echo "$id: demo is $c on the clean tree"; tail -5 /tmp/plant/demo.log; continue; }
  fi
  git apply "$d/patch.diff"
  b || { echo "$id: does not build"; tail -20 /tmp/plant/build.log; git checkout -q -- .; continue; }
  timeout 300 bash /tmp/plant/demo/demo.sh >/tmp/plant/demo.log 2>&1; p=$?
  cargo test --workspace --features build-binary --no-fail-fast --locked --offline -- --test-threads 8 >/tmp/plant/test.log 2>&1; t=$?
  python3 /opt/vp/results.py /tmp/plant/out.json cargo:/tmp/plant/test.log >/dev/null 2>&1
  f=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant/out.json'))
def passed(x):
    for k in ('stable','passed','stable_pass','pass','tests'):
        if k in x: v=x[k]; break
    else: return None
    return set(v) if isinstance(v,list) else {k for k,s in v.items() if s in ('pass','passed','ok',True)}
pb,po=passed(b),passed(o)
print('?' if pb is None or po is None else len(pb-po))
P
)
  git checkout -q -- .
  echo "$id: clean demo 0, patched demo $p ($(tail -1 /tmp/plant/demo.log | cut -c1-150)), tests rc $t, stable tests broken: $f"
done
