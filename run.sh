#!/bin/bash
# run.sh Cxx [quick|thorough]   decide one property
# run.sh replay FILE            run the unit of a reported violation again
# run.sh setup                  build the harness once
cd "$(dirname "$0")" || exit 3
export VERIF_DIR=$PWD
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
bin=$(mktemp -d) || exit 3
trap 'rm -rf "$bin"' EXIT
(cd mc && go build -o "$bin/vrun" ./cmd/vrun) || exit 3
"$bin/vrun" "$@"
