#!/bin/bash
# scratch.sh NAME: make /tmp/NAME/{repo,verif}, a copy in which changes can be tried out:
#   git -C /tmp/NAME/repo apply PATCH; /tmp/NAME/verif/bin/check.sh C01
set -eu
d=/tmp/$1
mkdir -p "$d/verif"
[ -d "$d/repo" ] || git clone -q /repo "$d/repo"
rsync -a --delete --exclude .git --exclude seeded --exclude evidence --exclude replays --exclude .build /verif/ "$d/verif/" 2>/dev/null \
  || { for f in sim shim bin corpus tools known_findings.txt; do [ -e /verif/$f ] && cp -a /verif/$f "$d/verif/"; done; }
