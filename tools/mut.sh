#!/bin/bash
# tools/mut.sh PID 'sed expression' file...: run a check on a scratch copy of the sources (/tmp/rw) after an edit, then undo it
P=$1; E=$2; shift 2; cd /tmp/rw; sed -i -E "$E" "$@"; git diff --stat | tail -1
(cd /verif; cp evidence/$P.json /tmp/ev.$P 2>/dev/null; DPA_REPO=/tmp/rw timeout 900 python3-vt -m dpa.check $P 2>&1 | tail -${TAIL:-4}; cp /tmp/ev.$P evidence/$P.json 2>/dev/null)
git checkout -q -- .
