#!/bin/bash
# Builds /repo, runs its stable tests and the left-out ones
bash /opt/vp/build.sh >/tmp/vr.log 2>&1 || { tail -20 /tmp/vr.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/vr.json >/tmp/vr.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vr.json'))
print({k:(len(v) if isinstance(v,(list,dict)) else v) for k,v in o.items()})
P
bash /verif/tools/run_left_out_tests.sh 2>&1 | tail -4
