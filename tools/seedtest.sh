#!/bin/bash
# seedtest.sh ID [nocheck]: run build, tests, demo and the property's check with a planted bug,
# in a mount namespace where a scratch copy stands at /repo.
ID=$1; SD=/verif/seeded/$ID
C=/tmp/seedrepo.$ID
rm -rf "$C"; cp -a /repo "$C"
unshare -Urm bash -c '
C=$1; SD=$2; MODE=$3; ID=$4
mount --bind $C /repo
L=/tmp/seedlog.$ID
cd /repo; git reset -q --hard HEAD
if [ "$MODE" != onlycheck ]; then
bash /opt/vp/build.sh >$L.build 2>&1 || echo "$ID clean build FAIL"
(cd /repo && timeout 300 bash $SD/demo.sh >$L.demo0 2>&1); echo "$ID demo clean rc=$?"
fi
git apply $SD/patch.diff || { echo "$ID APPLY FAIL"; exit; }
if [ "$MODE" != onlycheck ]; then
bash /opt/vp/test.sh /tmp/seedout.$ID.json >$L.test 2>&1
python3 - /tmp/seedout.$ID.json $ID <<PY
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
base=b.get("passed") or b.get("stable") or b
missing=[t for t in base if t not in set(o["passed"])]
print(sys.argv[2], "tests", len(o["passed"]), "missing", missing[:5])
PY
(cd /repo && timeout 300 bash $SD/demo.sh >$L.demo1 2>&1); echo "$ID demo patched rc=$?"
fi
if [ "$MODE" != nocheck ]; then
P=$(python3 -c "import json;print(json.load(open(\"$SD/meta.json\"))[\"property\"])")
s=$(date +%s)
VERIF_SEED=1 VERIF_TIER=quick VERIF_EVIDENCE=/tmp/ev.$ID /verif/check $P >$L.check 2>&1; rc=$?
echo "$ID check $P rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION $L.check | cut -c1-200)"
fi
' x "$C" "$SD" "$2" "$ID"
rm -rf "/tmp/seedrepo.$ID"
