#!/bin/bash
cd /repo; (bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/out.json) >/tmp/b.log 2>&1 || tail -5 /tmp/b.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
bp=set(b.get('passed') or b.get('stable') or b.get('pass') or []); op=set(o.get('passed') or o.get('pass') or [])
print(len(bp),len(op), "missing:",list(bp-op)[:10])
P
