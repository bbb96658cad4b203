#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what_it_breaks" -- package the uncommitted change in /tmp/seedwt (a worktree of
# /repo) and /tmp/seed/ID/{demo.c,run} as seeded/ID, after confirming it: builds, demo ok without and fails with.
set -e
id=$1 p=$2 needs=$3 what=$4; d=/verif/seeded/$id; mkdir -p $d
cp /verif/tools/demokit/* $d/; [ -d /tmp/seed/$id ] && cp -r /tmp/seed/$id/. $d/
git -C /tmp/seedwt diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
python3 - "$d" "$p" "$needs" "$what" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
PY
cp -r $d /tmp/seedcopy; rm -f /tmp/seedcopy/patch.diff /tmp/seedcopy/meta.json
( cd /tmp/seedwt; set +e
  timeout 300 bash /tmp/seedcopy/demo.sh >/tmp/seed.bad 2>&1; b=$?
  git checkout -q -- .; timeout 300 bash /tmp/seedcopy/demo.sh >/tmp/seed.good 2>&1; g=$?
  echo "$id: with patch rc=$b ($(tail -1 /tmp/seed.bad)); clean rc=$g ($(tail -1 /tmp/seed.good))"
  [ $b != 0 ] && [ $g = 0 ] || { echo "NOT CONFIRMED $id"; } )
rm -rf /tmp/seedcopy
