#!/bin/bash
# testpatch.sh patch...: apply each to /repo, run the stable tests, undo
for p in "$@"; do
  git -C /repo apply "$p" || { echo "$p NOAPPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/tp.log 2>&1 || echo "$p NOBUILD"
  bash /opt/vp/test.sh /tmp/o.json >/tmp/rt.log 2>&1
  python3 - "$p" <<'P'
import json,sys
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=b if isinstance(b,list) else b.get('passed') or b.get('tests') or list(b.values())[0]
print(sys.argv[1], 'tests MISSING', set(base)-set(o['passed']))
P
  git -C /repo checkout -- .
done
bash /opt/vp/build.sh >/dev/null 2>&1
