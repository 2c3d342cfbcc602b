#!/bin/bash
# Builds the checker offline into /verif/bin (git-ignored).
set -e
cd "$(dirname "$0")"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS="-mod=mod" GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} CGO_ENABLED=0 GONOSUMDB=* GOSUMDB=off
unset GOROOT
mkdir -p ../bin
exec /opt/veriftools/go1.26.10/bin/go build -o ../bin/checker .
