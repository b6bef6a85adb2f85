#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Rebuilds the model checker from /repo's working tree and decides a property.
V=$(cd "$(dirname "$0")" && pwd)
P=$1
T=${2:-${VERIF_TIER:-quick}}
R=""
if grep -qw "$P" "$V/mc/race-properties"; then R=race; fi
bash "$V/build.sh" $R || { echo "build failed" >&2; exit 2; }
exec "${VERIF_BUILD:-$V/.build}/mc" check "$P" -tier "$T" -root "${VERIF_BUILD:-$V}"
