#!/bin/bash
# tools/trybatch.sh ID...: applies all the given bugs together in the scratch copy, builds, runs every demo and the stable tests once
W=${W:-/tmp/rt}
[ -n "$INNER" ] || { [ -d $W ] || cp -a /repo $W; exec env INNER=1 W=$W unshare -Urm bash "$0" "$@"; }
mount --bind $W /repo || exit 9
git config --global --add safe.directory /repo 2>/dev/null
for i; do git -C /repo apply /verif/seeded/$i/patch.diff || { git -C /repo checkout -q -- .; exit 9; }; done
bash /opt/vp/build.sh > /tmp/trybatch.build 2>&1; echo "build rc=$?"
for i; do (cd /repo; bash /verif/seeded/$i/demo.sh >/tmp/trybatch.$i.demo 2>&1; echo "$i demo with bugs rc=$?: $(tail -2 /tmp/trybatch.$i.demo | head -1)"); done
bash /opt/vp/test.sh /tmp/trybatch.json >/tmp/trybatch.tests 2>&1; python3 -c "import json;d=json.load(open('/tmp/trybatch.json'));print('passed',len(d['passed']),'failed tests:',d['failed'])"
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > /tmp/trybatch.build 2>&1
