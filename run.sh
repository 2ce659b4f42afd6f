#!/bin/bash
# Entry point of every registered check: builds the program under test from
# /repo's working tree and the harness, then runs the check.
#   run.sh build | run.sh check <property> [tier] | run.sh replay <file> ...
set -u
V=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
. /opt/vp/env.sh >/dev/null 2>&1 || true
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 TZ=UTC
export GOCACHE=$V/.build/gocache
export GOSUMDB=off GOWORK=off
ulimit -n 20000 2>/dev/null
B=$V/.build
mkdir -p "$B/overlay" "$B/gocache"
build() {
  GR=$(go env GOROOT) || return 3
  if [ ! -f "$B/overlay/overlay.json" ] || [ "$V/tools/overlay.go" -nt "$B/overlay/overlay.json" ]; then
    (cd "$V/tools" && go run overlay.go "$B/overlay" "$GR") || return 3
  fi
  cp "$R/go.mod" "$B/go.mod" || return 3
  [ -f "$R/go.sum" ] && cp "$R/go.sum" "$B/go.sum"
  echo "replace github.com/siebenmann/smtpd => $V/standin/smtpd" >>"$B/go.mod"
  (cd "$R" && go build -modfile="$B/go.mod" -overlay="$B/overlay/overlay.json" -o "$B/sinksmtp.$$" .) || return 4
  mv "$B/sinksmtp.$$" "$B/sinksmtp"
  (cd "$V/harness" && go build -overlay="$B/overlay/overlay.json" -o "$B/vh" .) || return 3
}
build; rc=$?
if [ $rc -ne 0 ]; then echo "build failed ($rc)" >&2; exit 3; fi
[ "${1:-}" = build ] && exit 0
export VERIF_HOME=$V
exec "$B/vh" "$@"
