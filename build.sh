#!/bin/bash
# Builds the model checker from /repo's working tree into /verif/.build.
# usage: build.sh [race]     (race: also the race-detector build)
set -e
V=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/.build}
mkdir -p "$B" "$V/.build"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=$V/.build/gocache
exec 9>"$B/lock"
flock 9
python3 "$V/mc/patch/patch.py" "$(go env GOROOT)" "$R" "$B/ov"
sed "s#=> /repo#=> $R#" "$V/mc/go.mod" > "$B/go.mod.new"
echo "replace gopkg.in/tomb.v2 => $B/ov/tomb" >> "$B/go.mod.new"
echo "replace gopkg.in/check.v1 => $B/ov/check" >> "$B/go.mod.new"
mv "$B/go.mod.new" "$B/go.mod"
cp "$R/go.sum" "$B/go.sum"
cd "$V/mc"
case " $* " in
*" race "*)
  CGO_ENABLED=1 go build -race -gcflags='verifmc/...=-race=false' -modfile "$B/go.mod" -overlay "$B/ov/overlay.json" -o "$B/mc-race" ./cmd/mc ;;
esac
case " $* " in
*" raceonly "*) ;;
*) CGO_ENABLED=0 go build -modfile "$B/go.mod" -overlay "$B/ov/overlay.json" -o "$B/mc" ./cmd/mc ;;
esac
