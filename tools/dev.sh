#!/bin/bash
# dev.sh PROP [mc args]: run one property in the default configuration, with unit times
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
cd "$(dirname "$0")/../mc" || exit 3
prop=$1; shift
go build -tags "sel,${prop,,}${DEV_TAGS:+,$DEV_TAGS}" ${DEV_FLAGS:-} -o /tmp/mc-dev ./cmd/mc || exit 3
MC_TIMES=1 /tmp/mc-dev -prop "$prop" -out /tmp/frag-dev.json "$@" 2>&1 | sort -k2 -n -r | head -${LINES_MAX:-25}
python3 -c "
import json;f=json.load(open('/tmp/frag-dev.json'))
print({k:(v if not isinstance(v,list) else len(v)) for k,v in f.items()})"
