#!/bin/bash
# confirm.sh <seed id>... : in a scratch copy of /repo: demo passes; with the patch it builds, stable tests pass, demo fails
. /opt/vp/env.sh
W=/tmp/confirm-wt
if [ ! -d $W ]; then cp -a /repo $W; fi
cd $W && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
for id in "$@"; do
  s=/verif/seeded/$id
  [ -f $s/demo.sh ] || cp /verif/tools/demo.sh $s/demo.sh
  git checkout -q -- .
  bash $s/demo.sh > /tmp/confirm.$id.base 2>&1; b=$?
  if ! git apply $s/patch.diff; then echo "$id: patch does not apply"; continue; fi
  cargo test --workspace --no-run --offline > /tmp/confirm.$id.build 2>&1 || { echo "$id: does not build"; tail -20 /tmp/confirm.$id.build; git checkout -q -- .; continue; }
  cargo nextest run --workspace --no-fail-fast --offline --test-threads 8 -E 'not (binary_id(hnsw_rs) and test(/^hnswio::tests::/))' > /tmp/confirm.$id.test 2>&1
  python3 - $id <<'P'
import json,re,sys
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
t=open('/tmp/confirm.%s.test'%sys.argv[1]).read()
ok=set()
for l in t.splitlines():
    m=re.match(r'\s+PASS \[.*?\]\s+(?:\(.*?\)\s+)?(\S+) (\S+)',l)
    if m: ok.add(m.group(1)+'::'+m.group(2))
bad=[s for s in st if s not in ok and s.replace('hnsw_rs::','hnsw_rs::',1) not in ok]
def norm(x): return x.split('::')[-1]
bad=[s for s in bad if norm(s) not in {norm(o) for o in ok}]
print(sys.argv[1],'tests:', 'ok' if not bad else bad)
P
  bash $s/demo.sh > /tmp/confirm.$id.patched 2>&1; p=$?
  git checkout -q -- .
  echo "$id: demo base=$b patched=$p $( [ $b = 0 ] && [ $p != 0 ] && [ $p != 3 ] && echo CONFIRMED || echo NOT-CONFIRMED)"
done
