#!/bin/bash
# seedtest.sh ID [quick]: applies a planted bug to /repo, builds, runs the stable tests, its demo and its check, then undoes it
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
T=$(mktemp -d /tmp/seedtest.XXXXXX); cp -r $S $T/demo; rm -f $T/demo/*.diff $T/demo/meta.json
cd /repo; git diff --quiet || { echo "repo dirty"; exit 9; }
git apply $S/patch.diff || { echo "$ID: does not apply"; exit 9; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$ID: BUILD FAILS"
if [ "$2" != quick ]; then bash /opt/vp/test.sh $T/out.json >/dev/null 2>&1
python3 - $T/out.json $ID <<'X'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed']); print(sys.argv[2],'stable tests', 'PASS' if b<=o else 'FAIL %s'%sorted(b-o)[:3])
X
fi
( cd /repo; timeout 300 bash $T/demo/demo.sh > $T/d1 2>&1; echo "$ID: demo with patch: $?"; tail -1 $T/d1 )
( cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $P quick > $T/c1 2>&1; echo "$ID: check $P with patch: $?"; grep -A2 VIOLATION $T/c1 | cut -c1-400 || tail -3 $T/c1 ; tail -1 $T/c1)
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
( cd /repo; timeout 300 bash $T/demo/demo.sh > $T/d2 2>&1; echo "$ID: demo without patch: $?"; tail -1 $T/d2 )
rm -rf $T
