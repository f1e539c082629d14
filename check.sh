#!/bin/bash
# check.sh <property>: builds the analyzer from source and decides one property
# on /repo's current working tree.  Exit 0: holds; 1: VIOLATION; 2: error.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p bin evidence
tmp=$(mktemp bin/analyzer.XXXXXX) || exit 2
if ! (cd analyzer && go build -buildvcs=false -o "../$tmp" .); then
  rm -f "$PWD/$tmp"; echo "cannot build the analyzer"; exit 2
fi
mv -f "$tmp" bin/analyzer
VERIF_DIR="$PWD" exec bin/analyzer check "$1"
