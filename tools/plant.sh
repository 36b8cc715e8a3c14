#!/bin/bash
# plant.sh ID: confirms a planted bug (demo quiet on the clean tree; with the patch the tree builds, passes its
# tests, and the demo fails), then runs the property's check against it. /repo is restored afterwards.
id=$1; s=/verif/seeded/$id; cd /repo
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
restore() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; }
bash $s/demo.sh >/tmp/plant-clean.log 2>&1 && echo "$id: demo clean ok" || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/plant-clean.log; exit 2; }
git apply $s/patch.diff || { echo "patch does not apply"; exit 2; }
trap restore EXIT
bash /opt/vp/build.sh >/tmp/plant-build.log 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/plant-build.log; exit 2; }
bash /opt/vp/test.sh /tmp/plant-test.json >/dev/null 2>&1; grep -q '"failed": \[\]' /tmp/plant-test.json && grep -q Dwarf2Dwarf5 /tmp/plant-test.json && echo "$id: tests pass" || { echo "$id: TESTS FAIL"; cat /tmp/plant-test.json; }
bash $s/demo.sh >/tmp/plant-bug.log 2>&1 && echo "$id: DEMO DOES NOT FAIL" || { echo "$id: demo fails as it should: $(tail -1 /tmp/plant-bug.log)"; }
[ "$2" = nocheck ] && exit 0
for q in $p $3; do cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $q >/tmp/plant-check.log 2>&1; rc=$?
echo "$id: check $q rc=$rc $(grep -a VIOLATION /tmp/plant-check.log | head -1)"; done
