#!/bin/bash
# developer helper: camp.sh PROFILES SECONDS [args]
D=$(cd "$(dirname "$0")" && pwd); p=$1; t=$2; shift 2; mkdir -p $D/out
$D/sim.sh campaign --profile $p --seconds $t --out $D/out --keep-going --report $D/out/r.json "$@" || true
python3 - $D <<'P'
import json,sys
r=json.load(open(sys.argv[1]+'/out/r.json')); f=r.pop('failures'); print(r)
for x in sorted(f,key=lambda x:x['class']): print(x['profile'],x['seed'],x['class'],x['message'][:260])
P
