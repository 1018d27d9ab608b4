#!/bin/bash
# tr.sh SCEN SEED GREP [N]: trace lines of one run (LOG=1: broker log lines instead)
cd "$(dirname "$0")"; F='^\[ *[0-9]*\.[0-9]* #'; [ -n "$LOG" ] && F='^\[20'; PROP=X ./r.sh --single --scen $1 --seed $2 --trace 2>&1 | grep -a "$F" | awk '!s[$0]++' | grep -a "${3:-.}" | cut -c1-${W:-190} | tail -${4:-60}
