#!/bin/bash
# builds and tests the tree in $1 (default /tmp/sw) as if it were /repo
T=${1:-/tmp/sw}; OUT=${2:-/tmp/base_$$.json}
unshare -Urm bash -c "mount --bind $T /repo && bash /opt/vp/build.sh > $OUT.log 2>&1; bash /opt/vp/test.sh $OUT >> $OUT.log 2>&1"
python3 -c "
import json,sys
d=json.load(open('$OUT')); print('passed',len(d['passed']),'failed',d['failed'])"
