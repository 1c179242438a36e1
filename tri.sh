#!/bin/bash
# developer helper: campaign over PROFILES for SECONDS and list failures by class
D=$(cd "$(dirname "$0")" && pwd); mkdir -p $D/out; rm -f $D/out/r.json; $D/camp.sh "$@" > $D/out/log.txt 2>&1; head -c 200 $D/out/log.txt; python3 - $D <<'P'
import json,collections,sys
r=json.load(open(sys.argv[1]+'/out/r.json'))
print(collections.Counter((x['class']) for x in r['failures']))
k=collections.Counter()
for x in r['failures']:
  k[x['class']]+=1
  if k[x['class']]<=6: print(x['profile'],x['seed'],x['class'],x['message'][-260:])
P
