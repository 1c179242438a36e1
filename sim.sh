#!/bin/bash
# developer helper: build, then run the simulator with the given arguments
o=$(python3 "$(dirname "$0")/build.py") || { echo "$o"; exit 2; }
set -- $o "$@"; exe=$1; img=$2; cmd=$3; shift 3
exec $exe $cmd --images $img "$@"
