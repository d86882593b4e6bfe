#!/bin/bash
# seedtest.sh <seed-id>...: confirms seeded changes in a scratch copy of /repo (/tmp/sr): demo passes without, tests pass with, demo fails with.
. /opt/vp/env.sh
S=/tmp/sr
if [ ! -d $S ]; then cp -a /repo $S; fi
git -C $S fetch -q /repo HEAD && git -C $S checkout -q -f FETCH_HEAD
sed 's#/repo#/tmp/sr#g' /opt/vp/test.sh > /tmp/sr-test.sh
sed 's#/repo#/tmp/sr#g' /opt/vp/env.sh > /tmp/sr-env.sh
sed -i 's#/opt/vp/env.sh#/tmp/sr-env.sh#' /tmp/sr-test.sh
for id in "$@"; do
  d=/verif/seeded/$id
  git -C $S checkout -q -f FETCH_HEAD
  (cd $S && bash $d/demo.sh >/tmp/sr-demo0.log 2>&1); r0=$?
  git -C $S apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $S && bash $d/demo.sh >/tmp/sr-demo1.log 2>&1); r1=$?
  bash /tmp/sr-test.sh /tmp/sr-out.json >/tmp/sr-test.log 2>&1
  miss=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
o=json.load(open('/tmp/sr-out.json'))
p=set(o.get('passed',o.get('pass',[])))
m=[t for t in b if t not in p]
print(len(m), m[:4])
P
)
  git -C $S checkout -q -f FETCH_HEAD
  echo "$id: demo clean=$r0 patched=$r1 failing stable tests: $miss | $(tail -1 /tmp/sr-demo1.log | cut -c1-150)"
done
