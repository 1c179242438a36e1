#!/bin/bash
# tools_newseed.sh ID PROPERTY NEEDS BREAKS : takes the uncommitted change in /repo as the patch (and reverts it), kit files copied beside; demo.c/demo.sh are written separately
d=/verif/seeded/$1; mkdir -p $d; cp /verif/sim/kit/* /verif/sim/node/*.[ch] /verif/sim/abi.h $d/
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
python3 - "$@" <<'P'
import json,sys;json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
wc -l $d/patch.diff
