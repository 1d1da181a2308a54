#!/bin/bash
# Compiles the harness once with and without the race detector, so that the packages are in the build cache.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
if [ -x /opt/veriftools/go1.27.3/bin/go ]; then
    export GOROOT=/opt/veriftools/go1.27.3 PATH=/opt/veriftools/go1.27.3/bin:$PATH
fi
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off
tmp=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd harness && go build -trimpath -o "$tmp/pbt" . && go build -race -trimpath -o "$tmp/pbt-race" .
