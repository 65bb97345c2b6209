#!/bin/bash
# catch.sh [-c CHECK] id...: run the property's quick check against a scratch copy of /repo with the planted change
chk=""
if [ "$1" = "-c" ]; then chk=$2; shift 2; fi
for id in "$@"; do
  wt=$(mktemp -d /dev/shm/catch_XXXXXX)
  cp -a /repo/. "$wt"; git -C "$wt" apply /verif/seeded/$id/patch.diff || echo NOAPPLY
  c=${chk:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  VF_REPO=$wt VERIF_SEED=${VERIF_SEED:-1} python3 /verif/check.py $c quick >/tmp/catch_$id.log 2>&1
  echo "$id by $c: rc=$? $(grep -c ^VIOLATION /tmp/catch_$id.log) violations; $(tail -1 /tmp/catch_$id.log | cut -c1-150)"
  rm -rf "$wt"
done
