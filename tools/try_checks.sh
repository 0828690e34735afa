#!/bin/bash
# try_checks.sh [seed...]: runs each planted bug's own check against a scratch copy of /repo with the bug in it
cd "$(dirname "$0")/.."
for s in "${@:-seeded/*}"; do for d in $s; do
    d=seeded/$(basename $d); i=$(basename $d)
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    w=$(mktemp -d /tmp/tryXXXXXX); cp -a /repo/. $w/; git -C $w apply $PWD/$d/patch.diff || echo APPLY FAILED
    t0=$SECONDS; VP_REPO=$w VP_EVIDENCE=$w/ev.json timeout 900 python3 vp.py check $p > $w.log 2>&1; rc=$?
    echo "$i $p rc=$rc $((SECONDS-t0))s $(grep -m1 VIOLATION $w.log | cut -c1-100)"; grep -m1 -A2 VIOLATION $w.log | tail -2 | cut -c1-250
    find $w -delete
done; done
