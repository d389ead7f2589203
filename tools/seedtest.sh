#!/bin/bash
# Tries every planted bug (or those named) against the demo and the property's check: what vcheck does, faster.
# usage: seedtest.sh [id...]    needs a clean /repo
cd /verif
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
for id in $ids; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  (cd /repo && bash /verif/seeded/$id/demo.sh >/tmp/st.$id.0 2>&1); a=$?
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/st.$id.b 2>&1; bu=$?
  bash /opt/vp/test.sh /tmp/st.$id.json >>/tmp/st.$id.b 2>&1; te=$?
  (cd /repo && bash /verif/seeded/$id/demo.sh >/tmp/st.$id.1 2>&1); b=$?
  T0=$SECONDS
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash bin/check.sh $P quick >/tmp/st.$id.c 2>&1; c=$?
  git -C /repo checkout -- .
  v=$(grep -a -m1 "^VIOLATION property=$P" /tmp/st.$id.c)
  ok=BAD; [ $a = 0 ] && [ $b != 0 ] && [ $bu = 0 ] && [ $te = 0 ] && ok=ok
  ca=MISSED; [ $c = 1 ] && [ -n "$v" ] && ca=caught
  echo "$id $P: $ok (demo $a/$b build $bu tests $te) $ca (exit $c, $((SECONDS-T0))s)"
done
