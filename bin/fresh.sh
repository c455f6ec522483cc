#!/bin/bash
# fresh.sh <target dir> <crate dir>: cargo decides what to rebuild by mtime. /repo may have been put in place with any
# mtimes, so whenever the content of its sources differs from what this target directory was last
# built from, the packages from /repo are cleaned first.
T=$1; C=$2
H=$(cd /repo && { find . \( -path ./target -o -path ./opentelemetry-prometheus/target -o -path ./.git \) -prune -o \( -name '*.rs' -o -name 'Cargo.toml' \) -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-32)
if [ -f "$T/.repo-hash" ] && [ "$(cat "$T/.repo-hash")" != "$H" ]; then
  for p in $(cd "$C" && cargo metadata --offline --format-version 1 2>/dev/null | python3 -c '
import json,sys
for p in json.load(sys.stdin)["packages"]:
    if p["source"] is None: print(p["name"])'); do
    (cd "$C" && cargo clean --offline -p "$p" 2>/dev/null)
  done
fi
mkdir -p "$T"; echo "$H" > "$T/.repo-hash"
