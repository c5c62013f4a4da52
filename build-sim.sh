#!/bin/bash
# Builds the simulator against /repo's current working tree into /verif/.build/sim (with "race": also simrace, with the
# race detector).
set -e
cd "$(dirname "$0")"
V=$PWD
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
mkdir -p "$V/.build/overlay"
exec 9>"$V/.build/lock"
flock 9
python3 tools/overlay.py "$V/.build/overlay"
export CGO_ENABLED=0
cp "$V/.build/overlay/overlay.json" "$V/.build/overlay/plain.json"
go run tools/globals/main.go /repo "$V/.build/overlay/overlay.json" "$V/.build/overlay"
{ cat sim/go.mod; sed -n "/^require (/,/^)/p; /^require [^(]/p" /repo/go.mod; } >"$V/.build/go.mod"; sort -u sim/go.sum /repo/go.sum >"$V/.build/go.sum"
cd sim
build() { go build -modfile="$V/.build/go.mod" -tags "$2" -overlay "$V/.build/overlay/$1" -o "$V/.build/sim.$$" .; }
plain() {
  build overlay.json verif,fronts || build overlay.json verif || # the two programs under cmd are needed for C21 and C22 only
    build plain.json verif # without the generated files simulated processes share package-level variables
}
other() { # undo and redo of the application have other names or signatures than its hook expects
  for f in overlay plain; do
    go run "$V/tools/hooks/main.go" /repo "$V/.build/overlay/$f.json" "$V/.build/overlay/hooks.go" "$V/.build/overlay/hooks-$f.json"
  done
  build hooks-overlay.json verif,fronts || build hooks-overlay.json verif || build hooks-plain.json verif
}
plain || other
mv "$V/.build/sim.$$" "$V/.build/sim"
[ "$1" = race ] || exit 0
export CGO_ENABLED=1
build() { go build -race -gcflags=verif/sim=-race=false -modfile="$V/.build/go.mod" -tags "$2" -overlay "$V/.build/overlay/$1" -o "$V/.build/simrace.$$" .; }
rm -f "$V/.build/simrace"
if plain || other; then mv "$V/.build/simrace.$$" "$V/.build/simrace"; else echo "no build with the race detector"; fi
