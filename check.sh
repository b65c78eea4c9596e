#!/bin/bash
# check.sh PROPERTY [quick|thorough]   build from /repo's working tree and run the check of one property
# check.sh build                       build only
# check.sh replay FILE [-v]            replay a recorded violation
set -u
DIR="$(cd "$(dirname "$0")" && pwd)"
REPO="${REPO:-/repo}"
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GOFLAGS
B="$DIR/build"
mkdir -p "$B" || exit 2
build() {
  exec 9>"$B/lock"
  flock 9 || exit 2
  key=$( { cd "$REPO" && find common client gateway provider gateway-admin provider-admin register -type f \( -name '*.go' -o -name go.mod -o -name go.sum \) ! -name '*_test.go' -print0 | sort -z | xargs -0 sha256sum; cd "$DIR/sim" && find . -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-24)
  BIN="$B/sim-$key"
  if [ ! -x "$BIN" ]; then
    rm -rf "$B/o"
    ( cd "$DIR/sim" && go build -o "$B/simgen" ./simgen ) >"$B/log" 2>&1 || { cat "$B/log" >&2; echo "check.sh: simgen does not build" >&2; exit 2; }
    "$B/simgen" -repo "$REPO" -src "$DIR/sim" -out "$B/o" >"$B/log" 2>&1 || { tail -50 "$B/log" >&2; echo "check.sh: rewriting failed" >&2; exit 2; }
    ( cd "$B/o/h" && go build -ldflags "-s -w" -o "$BIN.tmp" ./cmd/sim ) >"$B/log" 2>&1 || { tail -50 "$B/log" >&2; echo "check.sh: simulation does not build" >&2; exit 2; }
    ls -t "$B"/sim-* 2>/dev/null | grep -v '\.tmp$' | tail -n +4 | while read -r f; do rm -f "$f"; done
    mv "$BIN.tmp" "$BIN"
    rm -rf "$B/o"
  fi
  flock -u 9
}
case "${1:-}" in
  build) build; echo "built $BIN"; exit 0;;
  replay) build; exec "$BIN" replay "${@:2}";;
  "") echo "usage: check.sh PROPERTY [quick|thorough]" >&2; exit 2;;
esac
P="$1"; T="${2:-${VERIF_TIER:-quick}}"
build
case "$T" in
  quick) S="${SIM_SECS:-45}";;
  *) S="${SIM_SECS:-780}"; T=thorough;;
esac
W=$(nproc 2>/dev/null || echo 8)
exec "$BIN" check -prop "$P" -tier "$T" -base "${VERIF_SEED:-1}" -secs "$S" -dir "$DIR" -workers "$W"
