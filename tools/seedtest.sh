#!/bin/bash
# tools/seedtest.sh ID [PROP...]: stable tests and demo with the patch, the checks with the patch, demo without it.
# Temporarily applies the patch to /repo.
cd "$(dirname "$0")/.."
id=$1; shift
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || { echo "patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$CHECKONLY" ]; then
 bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1 && bash /opt/vp/test.sh /tmp/seedtest.json | tail -1
 bash seeded/$id/demo.sh > /tmp/demo.out 2>&1; echo "$id demo with patch: $? (want nonzero)"; tail -2 /tmp/demo.out
fi
for p in $props; do ./check $p > /tmp/seedcheck.log 2>&1; echo "$id check $p with patch: $? (want 1)"; grep -E "VIOLATION|mismatches" /tmp/seedcheck.log | tail -2; done
git -C /repo checkout -q -- .
if [ -z "$CHECKONLY" ]; then
 bash seeded/$id/demo.sh > /tmp/demo.out 2>&1; echo "$id demo without patch: $? (want 0)"; tail -2 /tmp/demo.out
fi
