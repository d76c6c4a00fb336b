#!/bin/bash
# show.sh [N]: the violations of the last dev.sh or devs.sh run
python3 -c "
import json,sys
for v in json.load(open('/tmp/frag-dev.json')).get('violations') or []: print(v.get('unit'),'\n',v.get('case'),'\n',v.get('desc')[:${1:-1800}],'\n')"
