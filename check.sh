#!/bin/bash
# usage: check.sh <property id> [quick|thorough]     run one check
#        check.sh replay <file>                      re-execute a replay file
# Builds the harness against /repo's current working tree, then runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off
id="${1:?property id}"
export VERIF_DIR="$here"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
out="$here/.build/$id-$$"
mkdir -p "$out"
trap '[ -d "$out" ] && find "$out" -delete' EXIT
bin="$out/harness.test"
# data races decide these too
race=
case "$id" in C16|C17|C23) race=-race;; esac
[ "$id" = replay ] && grep -qE '"property": "C(16|17|23)"' "$2" && race=-race
# a second binary, instrumented for the coverage-guided search of what runs in
# one process and one goroutine; without it that search is left out
guided=
case "$id" in C0?|C1[0-5]|C21|C24|setup)
  trace="$(go env GOROOT)/src/internal/fuzz/trace.go"
  printf '{"Replace": {"%s": "%s"}}' "$trace" "$here/overlay/trace.go.txt" > "$out/overlay.json"
  (cd "$here/harness" && go test -c -vet=off -tags guided -overlay "$out/overlay.json" \
    -gcflags='github.com/iomz/gosstrak/...=-d=libfuzzer' -ldflags=-checklinkname=0 \
    -o "$out/guided.test" . 2> "$out/guided.log") &
  guided=$!;;
esac
if ! (cd "$here/harness" && go test -c $race -vet=off -o "$bin" .) ; then
  echo "check error: the harness does not build against /repo"
  exit 3
fi
if [ -n "$guided" ]; then
  if wait "$guided"; then
    export VERIF_GUIDED="$out/guided.test"
  else
    echo "no coverage-guided search: its binary does not build"
    head -5 "$out/guided.log"
  fi
fi
[ "$id" = setup ] && exit 0
# the programs that some checks drive from outside
case "$id" in C19|C20|C22|replay)
  for c in cmd/gosstrak-fc cmd/ale-ec cmd/gobtags scheme/sixenc2bin; do
    if ! (cd /repo && go build -o "$out/$(basename $c)" "./$c"); then
      echo "check error: /repo/$c does not build"
      exit 3
    fi
  done;;
esac
export VERIF_BUILD="$out"
if [ "$id" = replay ]; then
  VERIF_REPLAY="$(realpath "$2")" VERIF_TIER=quick "$bin" -test.run='^TestReplay$' -test.v
  exit $?
fi
VERIF_ID="$id" "$bin"
exit $?
