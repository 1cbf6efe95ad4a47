#!/bin/bash
# seedtest.sh ID...: demo on the clean tree and with the bug, then the property's check with the bug
v=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$v/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo status --porcelain | grep -q . && { echo "/repo is not clean"; exit 2; }
  if [ -z "$CHECK_ONLY" ]; then
    (cd /repo && bash $d/demo.sh >/tmp/seed-clean.log 2>&1); c=$?
    [ $c -ne 0 ] && tail -5 /tmp/seed-clean.log
  fi
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
  if [ -z "$CHECK_ONLY" ]; then
    bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1; b=$?
    bash /opt/vp/test.sh /tmp/seed-test.json >/tmp/seed-test.log 2>&1
    t=$(grep -c "^test .*ok$" /repo/target/vp-test.log)
    (cd /repo && bash $d/demo.sh >/tmp/seed-bug.log 2>&1); g=$?
    [ $g -ne 1 ] && tail -5 /tmp/seed-bug.log
  fi
  o=$(bash $v/check.sh $p quick 2>&1); k=$?
  git -C /repo checkout -- .
  echo "$id $p: build=$b tests_ok=$t demo clean=$c bug=$g check=$k $(echo "$o" | grep -m1 VIOLATION)"
done
