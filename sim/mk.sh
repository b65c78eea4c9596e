#!/bin/bash
# developer build: sim/mk.sh [OUTDIR]  (binary OUTDIR/sim)
S="$(cd "$(dirname "$0")" && pwd)"; O="${1:-/tmp/b}"
. /opt/vp/env.sh
set -e
mkdir -p "$O"
cd "$S" && go build -ldflags "-s -w" -o "$O/simgen" ./simgen
rm -rf "$O/o"
"$O/simgen" -repo ${REPO:-/repo} -src "$S" -out "$O/o"
cd "$O/o/h" && go build -ldflags "-s -w" -o "$O/sim" ./cmd/sim
