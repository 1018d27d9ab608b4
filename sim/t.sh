#!/bin/bash
# t.sh SCENS [runs] [seed] : batch, summary
cd "$(dirname "$0")"; S=$1; N=${2:-3000}; B=${3:-1}; shift 3 2>/dev/null
(time PROP=${PROP:-X} timeout 800 ./r.sh --scen $S --seed $B --time ${T:-60} --runs $N --keep-going "$@") 2>&1 | tail -${L:-60} | cut -c1-${W:-420}
