#!/bin/bash
# trybug.sh ID [PROP]: applies a planted bug to /repo, runs the check, undoes it
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
timeout 900 python3 /verif/check.py $p > /tmp/trybug.$id.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/trybug.$id.log) $(grep wall= /tmp/trybug.$id.log | tail -1 | grep -o 'wall=.*')"
