#!/bin/bash
# devs.sh PROP [mc args]: like dev.sh, in the instrumented build (DEV_FLAGS=-race for the race detector)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
cd "$(dirname "$0")/../mc" || exit 3
prop=$1; shift
rm -rf /tmp/dev-overlay
go build -o /tmp/vrun-dev ./cmd/vrun && VERIF_DIR=$(realpath ..) /tmp/vrun-dev instrument /tmp/dev-overlay sel || exit 3
go build ${DEV_FLAGS:-} -tags "sel,${prop,,},vsched${DEV_TAGS:+,$DEV_TAGS}" -overlay /tmp/dev-overlay/overlay.json -o /tmp/mc-devs ./cmd/mc || exit 3
FROZEN_CONCURRENCY=${FC--30} GOMAXPROCS=${GMP:-8} GORACE="halt_on_error=1 exitcode=66" MC_TIMES=1 /tmp/mc-devs -prop "$prop" -workers 1 -out /tmp/frag-dev.json "$@" 2>&1 | sort -k2 -n -r | head -${LINES_MAX:-25}
python3 -c "
import json;f=json.load(open('/tmp/frag-dev.json'))
print({k:(v if not isinstance(v,list) else len(v)) for k,v in f.items()})"
