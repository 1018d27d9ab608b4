#!/bin/bash
# seedcheck.sh ID [notest]: builds a copy with the planted bug, runs the stable tests and the demonstration (with and without the change).
ID=$1; D=/verif/seeded/$ID; W=/tmp/sw_$ID
rm -rf "/tmp/sw_$ID" "/tmp/sd_$ID"; cp -a /repo "$W"; mkdir /tmp/sd_$ID; cp $D/demo.sh $D/*.py $D/*.c* /tmp/sd_$ID/ 2>/dev/null
ns() { unshare -Urmn sh -c "mount --bind $W /repo; ip link set lo up; cd /repo; $1"; }
git -C "$W" checkout -q -- . ; 
ns "bash /opt/vp/build.sh >/tmp/sd_$ID/build0 2>&1; timeout 300 bash /tmp/sd_$ID/demo.sh" >/tmp/sd_$ID/demo0 2>&1; A=$?
(cd "$W" && git apply "$D/patch.diff") || { echo "$ID patch does not apply"; exit 1; }
ns "bash /opt/vp/build.sh >/tmp/sd_$ID/build1 2>&1 || exit 99; timeout 300 bash /tmp/sd_$ID/demo.sh" >/tmp/sd_$ID/demo1 2>&1; B=$?
T=-
if [ "$2" != notest ]; then ns "bash /opt/vp/test.sh /tmp/sd_$ID/t.json" >/tmp/sd_$ID/test 2>&1; T=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sd_$ID/t.json')); print(sorted(set(b['stable'])-set(o['passed'])))"); fi
echo "$ID: demo clean exit $A (want 0), with change exit $B (want nonzero); failing stable tests: $T"; tail -2 /tmp/sd_$ID/demo0; tail -3 /tmp/sd_$ID/demo1; [ $B = 99 ] && grep error /tmp/sd_$ID/build1
rm -rf "/tmp/sw_$ID"
