#!/bin/bash
# tryseed.sh ID [PROP]: run the property's quick check with the planted bug applied to /repo, undo (development helper)
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 9
cd /verif; t=$(date +%s); python3 run.py $p > /tmp/ts.log 2>&1; r=$?
git -C /repo checkout -q -- .
echo "$1 $p rc=$r $(( $(date +%s)-t ))s $(grep -m1 VIOLATION /tmp/ts.log | cut -c1-150)"
