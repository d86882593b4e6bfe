#!/bin/bash
# seedcheck.sh <seed-id>...: applies each seeded change to /repo, runs the check of its property, undoes it.
for id in "$@"; do
  d=/verif/seeded/$id
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply $d/patch.diff || continue
  for q in $p; do
    out=$(bash /verif/run.sh $q 2>&1); rc=$?
    echo "$id [$q] rc=$rc $(echo "$out" | grep -m1 '  case' | cut -c1-220)"
  done
  git -C /repo checkout -q -- .
done
