#!/bin/bash
# run the stable tests of /repo and list those that no longer pass
O=$(mktemp); bash /opt/vp/test.sh "$O" >/dev/null 2>&1
python3 - "$O" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
bad=sorted(b-set(o['passed'])); print("stable tests broken:",len(bad),bad[:10]); sys.exit(bool(bad))
P
R=$?; unlink "$O"; exit $R
