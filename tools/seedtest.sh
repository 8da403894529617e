#!/bin/bash
# seedtest.sh ID [CHECK...]: applies seeded/ID to /repo, builds, tests, runs the demo and the checks, reverts.
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
bash /opt/vp/build.sh > /tmp/w/sb0.log 2>&1; bash $d/demo.sh > /tmp/w/demo0.log 2>&1; echo "demo on clean: $?"
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/w/sb.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/w/sb.log; git checkout -- .; exit 1; }
[ -n "$NOTEST" ] || bash /opt/vp/test.sh /tmp/w/st.json | tail -1
bash $d/demo.sh > /tmp/w/demo1.log 2>&1; echo "demo on mutant: $?"
for c in ${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
  ( cd /verif; ./check $c 2>&1 | grep -v "^KNOWN\|^\[build" | cut -c1-300 | head -4 )
done
git checkout -- .
