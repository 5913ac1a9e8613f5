#!/bin/bash
# catch.sh NAME ID...: in the scratch copy /tmp/NAME (tools/scratch.sh), apply each planted change and run the
# quick check of its property; prints what came out.
set -u
name=$1; shift
/verif/tools/scratch.sh "$name"
r=/tmp/$name/repo
for id in "$@"; do
  git -C "$r" checkout -q -- . ; git -C "$r" pull -q /repo HEAD 2>/dev/null; git -C "$r" reset -q --hard "$(git -C /repo rev-parse HEAD)"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C "$r" apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} "/tmp/$name/verif/bin/check.sh" "${PROP:-$p}" quick >"/tmp/$name/$id.log" 2>&1; rc=$?
  echo "$id ${PROP:-$p}: rc $rc after $(( $(date +%s)-s )) s  $(grep -m1 VIOLATION "/tmp/$name/$id.log" | cut -c1-200)"
done
git -C "$r" checkout -q -- .
