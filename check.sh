#!/bin/bash
# check.sh PROPERTY [quick|thorough]: verify the contracts a property rests on against /repo's current tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME="${HOME:-/root}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p bin out evidence
(cd tool && go build -o ../bin/tool .) || exit 2
# the replay harness is rebuilt from /repo's working tree
cp replay/go.mod out/replay-$1.mod && cp replay/go.sum out/replay-$1.sum
replay=
if (cd replay && go build -modfile="$V/out/replay-$1.mod" -o "$V/out/replay-$1" .); then replay="$V/out/replay-$1"; fi
exec bin/tool check -repo /repo -contracts "$V/contracts" -replay "$replay" -out "$V/out" -prop "$1" -tier "$tier" -seed "${VERIF_SEED:-1}"
