#!/bin/bash
# usage: mut.sh PATCH PROPERTY...   (development aid)
# Applies PATCH to a scratch copy of /repo and runs the checks against it.
V=$(cd "$(dirname "$0")/.." && pwd)
P=$(realpath "$1"); shift
D=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo "$D/repo"
git -C "$D/repo" apply "$P" || { rm -rf "$D"; exit 2; }
export VERIF_REPO=$D/repo VERIF_BUILD=$D/build
for p in "$@"; do
  bash "$V/check.sh" "$p" > "$D/out" 2>&1
  echo "== $p exit $?"
  grep -v '^mc:' "$D/out" | head -${LINES_:-6}
done
rm -rf "$D"
