#!/bin/bash
# run.sh check <ID> [quick|thorough] | replay <FILE> | build
# Builds the harness against the current working tree of the repository and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export VERIF_REPO="${VERIF_REPO:-/repo}"
B="${VERIF_BUILD:-$here/.build}"
. /opt/vp/env.sh
mkdir -p "$B" || exit 2
sed "s#=> /repo\$#=> $VERIF_REPO#" "$here/harness/go.mod" > "$B/go.mod.$$" && mv "$B/go.mod.$$" "$B/go.mod"
cp "$here/harness/go.sum" "$B/go.sum"
build() { # name flags...
  local out="$1"; shift
  (cd "$here/harness" && go build -modfile="$B/go.mod" "$@" -o "$B/$out" ./cmd/vh) >"$B/$out.log" 2>&1 || {
    echo "ERROR: the harness does not build against $VERIF_REPO" >&2; cat "$B/$out.log" >&2; exit 4; }
}
tools() { # the metadata builder and parser commands of the repository
  (cd "$VERIF_REPO" && GOFLAGS=-mod=readonly go build -o "$B/buildmetadata" ./cmd/buildmetadata) >"$B/tools.log" 2>&1 || {
    echo "ERROR: the metadata builder does not build" >&2; cat "$B/tools.log" >&2; exit 4; }
  (cd "$VERIF_REPO" && GOFLAGS=-mod=readonly go build -o "$B/phoneparser" ./cmd/phoneparser) >"$B/tools.log" 2>&1 || {
    echo "ERROR: the parser command does not build" >&2; cat "$B/tools.log" >&2; exit 4; }
  export VH_BUILDMETADATA="$B/buildmetadata" VH_PHONEPARSER="$B/phoneparser" VH_MODFILE="$B/go.mod"
}
guided() { # the harness with the library instrumented, for the coverage-guided search
  (cd "$here/harness" && go build -modfile="$B/go.mod" -tags vhcov -gcflags='github.com/nyaruka/phonenumbers/v2/...=-d=libfuzzer' \
    -ldflags=-checklinkname=0 -o "$B/vh-cov" ./cmd/vh) >"$B/vh-cov.log" 2>&1 && return
  echo "note: no instrumented build, searching without coverage guidance" >&2; cat "$B/vh-cov.log" >&2
  return 1
}
case "${1:-}" in
build) build vh; build vh-race -race; guided; tools ;;
check)
  id="$2"; tier="${3:-${VERIF_TIER:-quick}}"; shift 2; [ $# -gt 0 ] && shift
  build vh
  extra=()
  case "$id" in
    P17) build vh-race -race; extra=(-race "$B/vh-race") ;;
    P19|P24|P25) tools ;;
    *) guided && extra=(-cov "$B/vh-cov") ;;
  esac
  exec "$B/vh" check "$id" -tier "$tier" "${extra[@]}" "$@"
  ;;
replay) build vh; tools; exec "$B/vh" replay "$2" ;;
*) echo "usage: run.sh check ID [quick|thorough] | replay FILE | build" >&2; exit 2 ;;
esac
