#!/bin/bash
# seedrun.sh ID [property]: the check of the property against one planted change in /repo
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
s=$(date +%s)
python3-vt /verif/check.py $p > /tmp/seedrun.$id.$p.log 2>&1; rc=$?
echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/seedrun.$id.$p.log)"
