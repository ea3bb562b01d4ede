#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [harness options]    decide one property on /repo's working tree
#        check.sh PROPERTY replay FILE                           replay one recorded execution
# exit 0: held on everything explored; 1: VIOLATION line; anything else: the checker could not be built.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
tmp=$(mktemp -d /tmp/verif-mc.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
if ! bash "$here/mc/build.sh" "$tmp" /repo >"$tmp/build.log" 2>&1; then
  cat "$tmp/build.log" >&2
  echo "the checker could not be built from /repo" >&2
  exit 2
fi
if [ "$tier" = replay ]; then
  "$tmp/harness" -prop "$prop" -replay "$1"
  exit $?
fi
mkdir -p "$here/evidence" "$here/replays"
"$tmp/harness" -prop "$prop" -tier "$tier" -evidence "$here/evidence" -replays "$here/replays" -known "$here/known-findings.jsonl" "$@"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || echo "the checker ended with status $rc" >&2
exit $rc
