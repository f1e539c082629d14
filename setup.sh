#!/bin/bash
# Builds the analyzer once (warms the build cache); offline.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
mkdir -p bin evidence
cd analyzer && go vet ./... >/dev/null 2>&1; go build -buildvcs=false -o ../bin/analyzer .
