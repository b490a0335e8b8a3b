#!/bin/bash
# Builds the simulator from /repo's current working tree. usage: build.sh [race]
set -e
. /opt/vp/env.sh
V=/verif; B=$V/.build
mkdir -p $B
export GOCACHE="${SIM_GOCACHE:-$GOCACHE}"
(cd $V/simbuild && go build -o $B/simbuild .)
DEPS=$(cd /repo && go list -m -f '{{.Dir}}' github.com/jung-kurt/gofpdf/v2)
SIM_GOROOT=$(go env GOROOT) $B/simbuild -repo /repo -out $B/ov -overlay $V/sim/overlay -dep "$DEPS"
cd $V/sim
X="-modfile=$B/ov/go.mod -overlay=$B/ov/overlay.json"
case " $* " in
*" race "*) go build $X -race -o $B/xpdfsim.race . ;;
*) go build $X -o $B/xpdfsim . ;;
esac
