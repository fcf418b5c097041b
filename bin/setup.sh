#!/bin/bash
# builds the harness (the checks build it again incrementally) and parses the specifications
cd "$(dirname "$0")/.." || exit 1
( . /opt/vp/env.sh; cd harness && cargo build --offline ) || exit 1
cd spec || exit 1
for f in *.tla; do tla-sany "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }; done
rm -f /tmp/sany.$$
exit 0
