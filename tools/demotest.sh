#!/bin/bash
# demotest.sh ID: only the demonstration, with the patch
S=/verif/seeded/$1; T=$(mktemp -d /tmp/seedtest.XXXXXX); cp -r $S $T/demo
cd /repo; git apply $S/patch.diff; bash /opt/vp/build.sh >/dev/null 2>&1
time timeout 300 bash $T/demo/demo.sh 2>&1 | tail -3; echo "rc ${PIPESTATUS[0]}"
git checkout -- .; rm -rf $T
