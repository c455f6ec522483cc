#!/bin/bash
# development aid. newbug.sh <id> <property> <needs> <breaks>: takes the edit in ${R:-/repo}'s working tree and main.rs from stdin
# as a new planted bug, and reverts the edit.
set -e
V=/verif; D=$V/seeded/$1; mkdir -p "$D"
[ -n "$(git -C ${R:-/repo} diff)" ] && git -C ${R:-/repo} diff > "$D/patch.diff"
git -C ${R:-/repo} checkout -q -- .
cp $V/bin/bugtmpl/* "$D/"; cat > "$D/main.rs"
python3 - "$@" > "$D/meta.json" <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
