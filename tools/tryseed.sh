#!/bin/bash
# tryseed.sh ID [CHECK..]: run checks against a copy of /repo with a planted change
id=$1; shift
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'].lower())")
T=$(mktemp -d /tmp/ts_XXXX)
git clone -q /repo $T/r && git -C $T/r apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; exit 2; }
for c in ${@:-$P}; do
  VT_REPO=$T/r python3 -B /verif/checks/$c.py > $T/out 2>&1; rc=$?
  echo "$id $c: exit $rc, $(grep -c VIOLATION $T/out) violations; $(grep -m1 -A1 VIOLATION $T/out | tail -1 | cut -c1-300)"
  [ $rc = 2 ] && tail -5 $T/out
done
cp $T/out /tmp/ts_last; rm -rf $T
