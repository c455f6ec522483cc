#!/bin/bash
exec "$(dirname "$0")/lib/build-seq.sh" met
