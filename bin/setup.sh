#!/bin/bash
# Builds every engine once from the committed files (each check rebuilds what changed).
set -e
cd "$(dirname "$0")"
for b in build-*.sh; do ./$b; done
