#!/bin/bash
# developer shortcut: build and pass arguments to the harness
cd "$(dirname "$0")"; python3 build.py > /tmp/b.txt || { cat /tmp/b.txt; exit 3; }
exec $(sed -n 2p /tmp/b.txt) --lib $(sed -n 1p /tmp/b.txt) --prop ${PROP:-X} "$@"
