#!/bin/bash
# tools_seed.sh ID...: confirms planted bugs: builds, stable tests pass, demo fails with the patch and
# passes without it, and (with CHECK=1) which check reports it. Works in /repo and undoes the patch.
cd /repo || exit 1
git diff --quiet || { echo "dirty /repo"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/dev/null 2>&1; c0=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed_test.json >/dev/null 2>&1; t=$(python3 -c "
import json
d=json.load(open('/tmp/seed_test.json')); print(str(d)[:80])")
  bash $d/demo.sh >/tmp/seed_demo.log 2>&1; c1=$?
  r=-
  if [ -n "$CHECK" ]; then (cd /verif; timeout 900 python3 build.py check $p quick > /tmp/seed_check.log 2>&1; echo $? >/tmp/seed_rc); r="$(cat /tmp/seed_rc) $(grep -h -m1 VIOLATION /tmp/seed_check.log | cut -c1-90)"; fi
  git checkout -q -- .
  echo "$id [$p]: clean demo=$c0 build=$b patched demo=$c1 check=$r tests=$t"
done
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
