#!/bin/bash
# seedtest.sh ID...: in the scratch copy /tmp/w, applies seeded/ID/patch.diff, builds + runs the tests, and runs
# the demonstration with and without the change.  SKIPTESTS=1 skips the test suite.
[ -d /tmp/w/.git ] || { mkdir -p /tmp/w; cp -a /repo/. /tmp/w/; }
sed 's#/repo#/tmp/w#g; s#/opt/vp/build.sh#/tmp/w/vpbuild.sh#' /opt/vp/test.sh > /tmp/w/vptest.sh
sed 's#/repo#/tmp/w#g' /opt/vp/build.sh > /tmp/w/vpbuild.sh
for id in "$@"; do
  S=/verif/seeded/$id
  D=/tmp/seed_demo_$id; mkdir -p $D; cp -r $S/. $D/; rm -f $D/*.diff $D/meta.json
  cd /tmp/w; git checkout -q -f $(git -C /repo rev-parse HEAD) 2>/dev/null || { git fetch -q /repo; git checkout -q -f FETCH_HEAD; }
  git checkout -q -- .
  bash $D/demo.sh > /tmp/seed_$id.clean 2>&1; r0=$?
  git apply $S/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  bash $D/demo.sh > /tmp/seed_$id.bug 2>&1; r1=$?
  t=skipped
  if [ -z "$SKIPTESTS" ]; then
    bash /tmp/w/vptest.sh /tmp/w/out.json > /tmp/seed_$id.test 2>&1
    t=$(python3 -c "
import json; b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/w/out.json'))['passed'])
print('tests-ok' if b<=p else 'TESTS-FAIL: %s'%sorted(b-p)[:4])")
  fi
  echo "$id: demo clean=$r0 bug=$r1 $t"
  rm -rf "/tmp/seed_demo_$id"
done
