#!/bin/bash
# tools/trycheck.sh ID...: runs each bug's check on a scratch checkout with the bug
W=/tmp/rc; [ -d $W ] || git clone -q --shared /repo $W; git -C $W fetch -q; git -C $W checkout -q -f $(git -C /repo rev-parse HEAD)
[ -d $W/_build ] || mkdir -p $W/_build && cp -a /repo/_build/extern $W/_build/ 2>/dev/null
cd /verif
for i; do
  git -C $W checkout -q -- .; git -C $W apply /verif/seeded/$i/patch.diff || continue
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  DPA_REPO=$W python3-vt -m dpa.check $P > /tmp/trycheck.$i 2>&1; echo "$i check rc=$? ($P) $(grep -m1 VIOL /tmp/trycheck.$i)"
done
git -C $W checkout -q -- .
