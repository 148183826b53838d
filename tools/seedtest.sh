#!/bin/bash
# seedtest.sh ID...: confirms planted bugs: demonstration passes without and fails with the patch, tests pass, and whether the check catches it
export SEED_TARGET=/tmp/seedtarget
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -r $d /tmp/seedrun; rm -f /tmp/seedrun/patch.diff /tmp/seedrun/meta.json
  cd /repo || exit 1; git diff --quiet || { echo "/repo dirty"; exit 1; }
  bash /tmp/seedrun/demo.sh > /tmp/seedrun.clean 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf /tmp/seedrun; continue; }
  bash /tmp/seedrun/demo.sh > /tmp/seedrun.bad 2>&1; b=$?
  t=skipped
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seedrun.json > /tmp/seedrun.log 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedrun.json'))
st=b.get('stable') or b.get('passed') or b
p=set(r.get('passed',[])); miss=[x for x in st if x not in p]
print('ok' if not miss else 'FAIL %d'%len(miss))
P
); fi
  c=-; if [ -z "$NOCHECK" ]; then (cd /verif && python3 check.py $prop quick > /tmp/seedrun.check 2>&1); c=$?; fi
  git checkout -q -- .
  echo "$id $prop: clean=$a bugged=$b tests=$t check=$c $(grep -h '^DIVERGENCE\|^slice' /tmp/seedrun.check 2>/dev/null| head -1 | cut -c1-150)"
  [ "$c" = - ] || { o=missed; [ "$c" = 1 ] && o="caught ($(grep -h '^slice' /tmp/seedrun.check | head -1 | sed 's/^slice \([A-Za-z0-9]*\):.*/\1/'))"
    touch /verif/tools/seed_results.txt; grep -v "^$id " /verif/tools/seed_results.txt > /tmp/seedres; echo "$id $o" >> /tmp/seedres; sort /tmp/seedres > /verif/tools/seed_results.txt; }
  rm -rf /tmp/seedrun
done
