#!/bin/bash
# Builds the checker once, so that the build cache is warm; every check builds it again from /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
bash "$here/build.sh" "$tmp" /repo
