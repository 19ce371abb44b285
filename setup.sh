#!/bin/bash
# builds the framework from the committed files (offline)
set -e
cd "$(dirname "$0")"
python3-vt -c 'import check; check.build_ssadump()'
cd falsify
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
for t in "" forcegeneric; do go build -tags "$t" -o /dev/null . ; done
