#!/bin/bash
# tools/trybug.sh ID: local trial of a planted bug in a private mount namespace whose /repo is a scratch copy
# (check, incremental build, demo with and without the bug; TESTS=1: the stable tests as well)
I=$1; W=${W:-/tmp/rt}
[ -n "$INNER" ] || { [ -d $W ] || cp -a /repo $W; exec env INNER=1 W=$W unshare -Urm bash "$0" "$@"; }
mount --bind $W /repo || exit 9
git config --global --add safe.directory /repo 2>/dev/null
cd /verif; D=/verif/seeded/$I; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo apply $D/patch.diff || exit 9
[ -n "$NOCHECK" ] || { DPA_REPO=/repo python3-vt -m dpa.check $P > /tmp/trybug.$I.check 2>&1; echo "$I check rc=$? ($P): $(tail -1 /tmp/trybug.$I.check)"; }
bash /opt/vp/build.sh > /tmp/trybug.$I.build 2>&1; echo "$I build rc=$?"
(cd /repo; bash $D/demo.sh; echo "$I demo with bug rc=$?")
[ -n "$TESTS" ] && { bash /opt/vp/test.sh /tmp/trybug.$I.json >/tmp/trybug.$I.tests 2>&1; python3 -c "import json;d=json.load(open('/tmp/trybug.$I.json'));print('$I passed',len(d['passed']),'failed tests:',d['failed'])"; }
git -C /repo checkout -q -- .
[ -n "$CLEAN" ] && { bash /opt/vp/build.sh > /tmp/trybug.$I.build 2>&1; (cd /repo; bash $D/demo.sh; echo "$I demo without bug rc=$?"); }
true
