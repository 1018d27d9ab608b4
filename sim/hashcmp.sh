#!/bin/bash
# hashcmp.sh SCENS RUNS SEED: does a run alone behave exactly as in a batch (and with another heap history)?
cd "$(dirname "$0")"; python3 build.py > /tmp/b.txt || { cat /tmp/b.txt; exit 3; }
E=$(sed -n 2p /tmp/b.txt); L=$(sed -n 1p /tmp/b.txt)
$E --lib $L --prop X --scen $1 --seed $3 --runs $2 --time 300 --keep-going --hashes --workers 8 | grep -a '^H ' | while read _ s sc st h; do echo "$s $sc $h"; done | sort -n > /tmp/hc1
cat /tmp/hc1 | xargs -P 8 -L 1 sh -c 'h=$('$E' --lib '$L' --prop C13 --scen $1 --seed $0 --single --xyzzy aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa 2>/dev/null| grep -ao "\"hash\":\"[0-9a-f]*" | cut -c9-); echo $0 $1 $h' | sort -n > /tmp/hc2
sed 's/"//g' /tmp/hc2 > /tmp/hc3; echo "compared $(wc -l < /tmp/hc1), different: $(diff /tmp/hc1 /tmp/hc3 | grep -c '^<')"; diff /tmp/hc1 /tmp/hc3 | head -${D:-6}
