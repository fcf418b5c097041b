#!/bin/bash
# tryslot.sh <slot> <seed id>[:property]... : the check of the property of each bug, in copies of /repo and /verif (/tmp/slot<slot>)
s=/tmp/slot$1; shift
mkdir -p $s
[ -d $s/repo ] || cp -a /repo $s/repo
rsync -a --delete --exclude .git --exclude target --exclude out --exclude seeded /verif/ $s/verif/ 2>/dev/null || { rm -rf $s/verif/spec $s/verif/bin $s/verif/harness/src; mkdir -p $s/verif/harness; cp -a /verif/spec /verif/bin $s/verif/; for f in /verif/harness/* ; do [ $(basename $f) = target ] || cp -a $f $s/verif/harness/; done; cp /verif/*.json* /verif/*.txt $s/verif/; }
sed -i "s#\"/repo\"#\"$s/repo\"#" $s/verif/harness/Cargo.toml
cd $s/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
for x in "$@"; do
  id=${x%%:*}; p=${x#*:}
  [ "$p" = "$x" ] && p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  cd $s/repo && git checkout -q -- . && { [ $id = none ] || git apply /verif/seeded/$id/patch.diff; } || { echo "$id: no patch"; continue; }
  cd $s/verif; timeout 900 python3 bin/check.py $p > /tmp/try.$id.$p 2>&1; rc=$?
  git -C $s/repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -v VIOL /tmp/try.$id.$p | head -2 | cut -c1-200 | tr '\n' '|')"
done
