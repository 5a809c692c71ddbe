#!/bin/bash
# seedcheck.sh ID...: applies seeded/ID/patch.diff in the scratch copy /tmp/w and runs the check of the property
# named in meta.json (plus those in $EXTRA) against it.
for id in "$@"; do
  S=/verif/seeded/$id
  cd /tmp/w; git checkout -q -f $(git -C /repo rev-parse HEAD) 2>/dev/null || { git fetch -q /repo; git checkout -q -f FETCH_HEAD; }
  git checkout -q -- .
  git apply $S/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  for p in $P $EXTRA; do
    s=$(date +%s); SYM_REPO=/tmp/w SYM_BUILD=/tmp/wb python3 /verif/check.py $p > /tmp/sc_$id.$p 2>&1; r=$?
    echo "$id $p exit=$r $(( $(date +%s)-s ))s $(grep -c VIOLATION /tmp/sc_$id.$p) $(grep -m1 -A0 'VIOLATION' /tmp/sc_$id.$p | cut -c1-150)"
  done
done
cd /tmp/w; git checkout -q -- .
