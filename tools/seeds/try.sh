#!/bin/bash
# try.sh ID...: does the seeded change build, pass the tests, fail its demo, and do the checks see it?
# Applies each patch to /repo and takes it back.
for id in "$@"; do
 d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo checkout -q -- .
 cd /repo
 if [ -z "$NOCLEAN" ]; then
 bash /opt/vp/build.sh >/tmp/try.log 2>&1; timeout 300 bash $d/demo.sh >/tmp/try.demo 2>&1; c=$?
 else c=-; fi
 git -C /repo apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
 if bash /opt/vp/build.sh >/tmp/try.log 2>&1; then
  bash /opt/vp/test.sh /tmp/try.json >/tmp/try.tlog 2>&1
  t=$(python3 -c "
import json; o=json.load(open('/tmp/try.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=o.get('passed') or o.get('pass') or []; print('tests-ok' if all(x in p for x in b) else 'TESTS-FAIL')")
  timeout 300 bash $d/demo.sh >/tmp/try.demo2 2>&1; x=$?
  cd /verif; r=$(VERIF_TIER=quick VERIF_SEED=1 timeout 900 ./check.sh $prop 2>/dev/null); k=$?
  extra=
  if [ -z "$OWNONLY" ] && { [ -n "$ALLCHECKS" ] || [ $k != 1 ]; }; then for q in $(seq -f C%02g 1 27); do [ $q = $prop ] && continue; timeout 900 ./check.sh $q >/tmp/try.q 2>/dev/null; [ $? = 1 ] && extra="$extra $q"; done; fi
  echo "$id: clean-demo=$c $t patched-demo=$x ($(tail -1 /tmp/try.demo2 | cut -c1-90)) $prop-check=$k $(echo "$r" | grep -E '^run|fail|VIOL' | head -1 | cut -c1-140) other:$extra"
 else echo "$id: BUILD FAILS"; tail -15 /tmp/try.log; fi
 git -C /repo checkout -q -- .
done
cd /repo; bash /opt/vp/build.sh >/tmp/try.log 2>&1
