#!/bin/bash
# Builds the checker binary from /repo's working tree. usage: build.sh OUTDIR [REPO]
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=$1
repo=${2:-/repo}
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=readonly
mkdir -p "$out"
(cd "$here" && GOFLAGS= go build -o "$out/rewrite" ./rewrite) || exit 1
build() {
  rm -f "$out/overlay.json"
  "$out/rewrite" -repo "$repo" -mc "$here" -out "$out/src$1" $2 || return 1
  # the conformance check of the environment models, uninstrumented
  (cd "$repo" && go build -overlay "$out/src$1/base.json" -o "$out/conform" ./zzmc/conform) &
  (cd "$repo" && go build -overlay "$out/src$1/overlay.json" -o "$out/harness" ./zzmc/harness)
  rc=$?
  wait
  return $rc
}
build "" "" && exit 0
echo "memory-instrumented build failed; building without it" >&2
build nm -nomem
