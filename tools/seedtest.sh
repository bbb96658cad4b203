#!/bin/bash
# seedtest.sh ID [check PROP...]: the existing tests pass with the planted bug; which checks catch it.
id=$1; shift
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
if [ -z "$NOTESTS" ]; then
bash /opt/vp/test.sh /tmp/seedtest.json >/tmp/seedtest.log 2>&1
python3 - $id <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/seedtest.json'))
miss=[x for x in b if x not in t['passed']]
print(sys.argv[1],"tests:", "all stable pass" if not miss else "MISSING %d: %s"%(len(miss),miss[:4]))
PY
fi
for p in "$@"; do (cd /verif; s=$(date +%s); timeout 900 python3 check.py $p quick >/tmp/seedcheck-$id-$p.log 2>&1; rc=$?; echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^violation in' /tmp/seedcheck-$id-$p.log | cut -c1-230)"); done
