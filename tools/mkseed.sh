#!/bin/bash
# mkseed.sh small|full ID PROP needs breaks : takes the diff of /repo's working tree, restores it (development helper);
# the demonstration is seeded/ID/demo.cpp
set -e
k=$1; shift; d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
[ -s $d/patch.diff ] || { echo empty diff; exit 1; }
if [ $k = small ]; then cp /verif/tools/demo_small.sh.tpl $d/demo.sh
else sed "s#@FLAGS@#${FLAGS:-}#" /verif/tools/demo.sh.tpl > $d/demo.sh; rm -rf $d/shim; cp -r /verif/shim $d/shim; fi
chmod +x $d/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
