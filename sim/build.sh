#!/bin/bash
# Builds the simulator binary from /repo's current tree: .build/sim (see DESIGN.md).
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
B=${SIMBUILD:-$V/.build}
mkdir -p "$B"
export HOME=${HOME:-/root} GOROOT=/opt/veriftools/go1.26.10
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${SIMCACHE:-$V/.build/gocache}
export GOENV=off GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOTELEMETRY=off TZ=UTC CGO_ENABLED=0
(cd "$V/sim/prep" && go build -o "$B/prep" .)
ok=
for extra in "" "-plain" "-plain -noos"; do
  "$B/prep" -repo "$REPO" -sim "$V/sim" -goroot "$GOROOT" -modcache "$GOMODCACHE" -out "$B" $extra
  if (cd "$REPO" && go test -c -vet=off -modfile "$B/go.mod" -overlay "$B/overlay.json" -ldflags=-checklinkname=0 -o "$B/sim" ./cmd/rq); then ok=1; break; fi
done
[ -n "$ok" ] || { echo "build.sh: the simulator does not build" >&2; exit 2; }
(cd "$V/sim/driver" && go build -o "$B/driver" .)
