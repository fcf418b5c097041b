#!/bin/bash
# tryseed.sh <seed id> [property] : runs the check of the property of the bug on /repo with the patch applied
id=$1
p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
cd /repo && git apply /verif/seeded/$id/patch.diff || exit 3
cd /verif; python3 bin/check.py $p > /tmp/try.$id.$p 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $p rc=$rc $(grep -v VIOL /tmp/try.$id.$p | head -2 | cut -c1-200 | tr '\n' '|')"
