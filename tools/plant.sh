#!/bin/bash
# plant.sh ID [PROPERTY...]: confirm a planted bug (builds, tests pass, demo 0 without / non-0 with it) and run checks on it.
id=$1; shift
d=/verif/seeded/$id
R=/repo
undo() { git -C $R checkout -q -- .; }
trap undo EXIT
[ -z "$(git -C $R status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
props="$@"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ -z "$SKIPDEMO" ]; then
  t=$(mktemp -d); cp $d/* $t/; rm -f $t/*.diff $t/meta.json
  ( cd $R && timeout 300 bash $t/demo.sh >$t/out1 2>&1 ); r0=$?
  git -C $R apply $d/patch.diff || exit 2
  bash /opt/vp/test.sh /tmp/plant_t.json >/tmp/plant_build.log 2>&1
  np=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/plant_t.json'))
import itertools
s=json.dumps(b)
print(len(r['passed']),len(r['failed']))")
  ( cd $R && timeout 300 bash $t/demo.sh >$t/out2 2>&1 ); r1=$?
  echo "$id: demo clean rc=$r0, tests passed/failed=$np, demo patched rc=$r1: $(tail -1 $t/out2)"
  rm -rf "$t"
else
  git -C $R apply $d/patch.diff || exit 2
fi
for p in $props; do
  mkdir -p /tmp/plant_out
  VERIF_OUT=/tmp/plant_out timeout 900 python3 /verif/check.py $p ${TIER:-quick} >/tmp/plant_out/$p.log 2>&1; rc=$?
  echo "$id: check $p rc=$rc $(grep -a -m1 VIOLATION /tmp/plant_out/$p.log) $(grep -a -m1 -E '^\[|killed|abnormal|exception' /tmp/plant_out/$p.log | cut -c1-200)"
done
