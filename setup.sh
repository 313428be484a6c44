#!/bin/bash
# Builds the verifier (checks rebuild it if it is not there) and warms the Go build cache.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0
mkdir -p bin out evidence
(cd tool && go build -o ../bin/tool .) || exit 1
cp replay/go.mod out/replay-setup.mod && cp replay/go.sum out/replay-setup.sum
(cd replay && go build -modfile="$PWD/../out/replay-setup.mod" -o ../out/replay-setup .) || exit 1
