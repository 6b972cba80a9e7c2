#!/bin/bash
# tools/trial.sh ID...: applies seeded/ID to /repo, builds, runs the stable tests, the demo and the property's quick check, undoes it
cd /verif
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/trial.json > /tmp/trial.log 2>&1; pass=$(python3 -c "import json;print(len(json.load(open('/tmp/trial.json'))['passed']))")
  (cd /repo && bash /verif/seeded/$id/demo.sh > /tmp/trial.demo 2>&1); bad=$?
  VERIF_SEED=${SEED:-1} timeout 900 python3-vt -m vt.check ${CHECK:-$P} --tier quick > /tmp/trial.check 2>&1; rc=$?
  git -C /repo checkout -- . ; bash /opt/vp/build.sh > /dev/null 2>&1
  (cd /repo && bash /verif/seeded/$id/demo.sh > /tmp/trial.demo0 2>&1); good=$?
  echo "$id $P: stable tests passing $pass, demo $good -> $bad, check rc $rc: $(grep -h '^case\|held' /tmp/trial.check | head -1 | cut -c1-160)"
done
