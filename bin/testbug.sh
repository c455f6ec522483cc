#!/bin/bash
# development aid. testbug.sh <id>: demo without and with the patch, stable tests with it, and the property's check with it.
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; [ -z "$(git status --short)" ] || { echo "/repo not clean"; exit 9; }
if [ "$2" != nodemo ]; then bash $D/demo.sh >/tmp/demo0.log 2>&1; echo "$1: demo unpatched $? (want 0)"; fi
git apply $D/patch.diff || exit 9
if [ "$2" != nodemo ]; then
bash $D/demo.sh >/tmp/demo1.log 2>&1; echo "$1: demo patched $? (want nonzero): $(tail -1 /tmp/demo1.log)"
/verif/bin/repotest.sh; fi
/verif/bin/check $P quick > /tmp/bugcheck.log 2>&1; echo "$1: check $P exit $?"; grep -a -E "VIOLATION|ERROR" /tmp/bugcheck.log | head -3
git checkout -q -- .
