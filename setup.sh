#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
set -u
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
export HOME=${HOME:-/root} GOROOT=/opt/veriftools/go1.24.13
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOENV=off GOWORK=off GOFLAGS=-mod=mod
t=$(mktemp -d /tmp/verif-setup-XXXXXXXX) || exit 1
trap 'rm -rf "$t"' EXIT
cp -r harness "$t/harness" || exit 1
cd "$t/harness" || exit 1
CGO_ENABLED=0 go build ./... || exit 1
CGO_ENABLED=1 go build -race ./work ./mon ./zs || exit 1
(cd /repo && CGO_ENABLED=0 GOFLAGS=-mod=readonly go build -o "$t/go-zserio" ./cmd/go-zserio) || exit 1
exit 0
