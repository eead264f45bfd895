#!/bin/bash
# seed.sh ID...: confirm planted bugs in a scratch copy of /repo: demo passes without the
# patch and fails with it, the stable tests still pass; then run the property's check.
# The copy is bind-mounted nowhere: the patch is applied to /repo for the run and undone.
for id in "$@"; do
  d=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
  t=$(mktemp -d); cp "$d"/* $t/; rm -f $t/*.diff $t/meta.json
  (. /opt/vp/env.sh; timeout 300 bash $t/demo.sh >$t/clean.log 2>&1); a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >$t/build.log 2>&1; b=$?
  (. /opt/vp/env.sh; timeout 300 bash $t/demo.sh >$t/bad.log 2>&1); c=$?
  s=skipped
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh $t/o.json >/dev/null 2>&1
    s=$(python3 -c "
import json;p=set(json.load(open('$t/o.json'))['passed']);print([x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in p] or 'pass')")
  fi
  k=none
  if [ -z "$NOCHECK" ]; then
    (cd /verif; python3 run_check.py $P >$t/check.log 2>&1); k=$?
  fi
  git -C /repo checkout -q -- .
  echo "$id ($P): demo clean=$a build=$b patched=$c tests=$s check=$k $(grep -c ^VIOLATION $t/check.log 2>/dev/null) violations"
  [ $a = 0 ] || tail -3 $t/clean.log
  [ $c != 0 ] || tail -3 $t/bad.log
  /bin/rm -rf "$t"
done
