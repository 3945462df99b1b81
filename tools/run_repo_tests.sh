#!/bin/bash
find /repo/_build -name "*.gcda" -delete
bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
k=[x for x in b if isinstance(b[x],list)]
base=set(b.get('passed') or b.get('stable') or b[k[0]])
print(len(o['passed']),'passed', len(o['failed']),'failed; baseline missing:', sorted(base-set(o['passed']))[:10])
P
cd /repo && git status --short
