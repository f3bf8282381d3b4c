#!/bin/bash
# try_bug.sh ID : full life cycle of a planted bug (apply, build, tests, demo, check, undo, demo again)
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 9
git diff --quiet || { echo "/repo dirty"; exit 9; }
git apply --check $D/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
git apply $D/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/tb_build.log 2>&1 || { echo "$ID: BUILD FAILED"; tail -5 /tmp/tb_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/tb.json > /tmp/tb_test.log 2>&1
T=$(python3 -c "import json;print(len(json.load(open('/tmp/tb.json'))['passed']))")
bash $D/demo.sh > /tmp/tb_demo1.log 2>&1; d1=$?
python3-vt /verif/vcg/check.py $P quick > /tmp/tb_check.log 2>&1; c=$?
v=$(grep '^VIOLATION' /tmp/tb_check.log | head -3)
git checkout -q -- .
trap - EXIT
bash /opt/vp/build.sh > /tmp/tb_build.log 2>&1
bash $D/demo.sh > /tmp/tb_demo0.log 2>&1; d0=$?
echo "$ID [$P]: tests passed=$T demo with=$d1 without=$d0 check rc=$c | $v"
