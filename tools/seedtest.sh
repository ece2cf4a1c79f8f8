#!/bin/bash
# seedtest.sh <seed id>... : demo on the clean tree, then apply, build, tests, demo, check; undo.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  (cd /repo && bash $d/demo.sh >/tmp/demo0.txt 2>&1); d0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/seed_out.json >/tmp/seed_build.txt 2>&1
  t=$(python3 -c "import json;d=json.load(open('/tmp/seed_out.json'));print(len(d['passed']),len(d['failed']),d['failed'][:3])")
  (cd /repo && bash $d/demo.sh >/tmp/demo1.txt 2>&1); d1=$?
  if [ -z "$NOCHECK" ]; then
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py $prop > /tmp/seed_chk.txt 2>&1); c=$?
  v=$(grep -E '^VIOLATION' /tmp/seed_chk.txt | head -1); w=$(grep -oE 'wall [0-9.]+s' /tmp/seed_chk.txt)
  fo=$(grep -c '^FAILED-OBLIGATION' /tmp/seed_chk.txt)
  fi
  git -C /repo checkout -- .
  echo "$id [$prop] demo $d0/$d1 tests $t check=$c failed-obl=$fo $w $v"
done
