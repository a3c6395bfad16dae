#!/bin/bash
# run.sh PROPERTY [quick|thorough]: run one check. VERIF_SEED selects the seed.
set -u
ID=${1:?usage: run.sh PROPERTY [tier]}
TIER=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8
export GOROOT=/opt/veriftools/go1.24.13
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOMODCACHE=$GOPATH/pkg/mod
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOENV=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
export VERIF_DIR=$here
VERIF_SCRATCH=$(mktemp -d /tmp/verif-XXXXXXXX) || exit 2
export VERIF_SCRATCH
trap 'chmod -R u+rwx "$VERIF_SCRATCH" 2>/dev/null; rm -rf "$VERIF_SCRATCH"' EXIT
trap 'exit 2' INT TERM
# a private copy, so that nothing is written below /verif while building
cp -r "$here/harness" "$VERIF_SCRATCH/harness" || exit 2
if [ -n "${VERIF_REPO:-}" ]; then
    sed -i "s|=> /repo|=> $VERIF_REPO|" "$VERIF_SCRATCH/harness/go.mod"
fi
(cd "$VERIF_SCRATCH/harness" && go build -o "$VERIF_SCRATCH/driver" ./cmd/driver) || { echo "check error: cannot build the driver" >&2; exit 2; }
"$VERIF_SCRATCH/driver" "$ID" "$TIER"
