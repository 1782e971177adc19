#!/bin/bash
# seed.sh ID: takes the uncommitted change in /repo as the planted bug ID: checks that it builds, passes the
# stable tests, that seeded/ID/demo.sh fails with it and passes without it; writes patch.diff; restores /repo.
ID=$1; D=/verif/seeded/$ID
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || { tail -20 /tmp/seed_build.log; echo BUILD-FAILS; exit 1; }
bash /opt/vp/test.sh /tmp/seed_t.json > /dev/null 2>&1
python3 - <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/seed_t.json'))
m=b-set(t['passed']); print('stable failing:',len(m), sorted(m)[:5]); sys.exit(1 if m else 0)
P
(cd /repo; bash $D/demo.sh > /tmp/seed_demo1.log 2>&1); r1=$?; tail -3 /tmp/seed_demo1.log
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1
(cd /repo; bash $D/demo.sh > /tmp/seed_demo0.log 2>&1); r0=$?
echo "demo with patch: $r1, without: $r0"; [ $r0 = 0 ] && [ $r1 != 0 ] && echo SEED-OK $ID || { tail -20 /tmp/seed_demo0.log; echo SEED-BAD; }
