#!/bin/bash
# mkseed.sh ID PROPERTY "NEEDS" "WHAT": takes the uncommitted change in /repo as the patch of a new planted change (development helper)
set -e
D=/verif/seeded/$1
mkdir -p $D
git -C /repo diff > $D/patch.diff
git -C /repo checkout -- .
[ -s $D/patch.diff ]
if [ -f $D/demo.cpp ] && [ ! -f $D/demo.sh ]; then cp /verif/tools/seedkit/demo.sh $D/demo.sh; fi
if grep -q kit.tgz $D/demo.sh 2>/dev/null; then tar czf $D/kit.tgz -C /verif shim lib hints/e2e.txt; fi
python3 - "$D" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
ls -la $D
