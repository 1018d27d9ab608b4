#!/bin/bash
# hunt.sh SEED-ID [PROPERTY...]: runs the checks (default: the one of the planted bug's property) against a copy with that bug.
ID=$1; shift; D=/verif/seeded/$ID; W=/tmp/h_$ID
rm -rf "/tmp/h_$ID" "/tmp/hv_$ID"; git clone -q /repo "$W"; (cd "$W" && git apply "$D/patch.diff") || exit 1
mkdir "/tmp/hv_$ID"; cp -a /verif/check.py /verif/props.py /verif/properties.jsonl /verif/known-findings.txt /verif/sim /verif/MANIFEST.json "/tmp/hv_$ID/"; cp -a /verif/build "/tmp/hv_$ID/build" 2>/dev/null
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
for P in "$@"; do (cd "/tmp/hv_$ID" && SIM_REPO=$W SIM_BUILD=/tmp/hv_$ID/build timeout 900 python3 check.py $P 2>&1 | tail -4 | cut -c1-300; echo "$ID: $P exit ${PIPESTATUS[0]}"); done
rm -rf "/tmp/h_$ID" "/tmp/hv_$ID"
