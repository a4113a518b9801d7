#!/bin/bash
# runseeds.sh [id...]: apply each seeded change to a scratch copy and say whether its property's check reports it.
. /opt/vp/env.sh
[ -d /tmp/mr ] || cp -a /repo /tmp/mr
cd /tmp/mr && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD
[ $# = 0 ] && set -- $(ls /verif/seeded)
for id in "$@"; do
  git checkout -q -- . && git apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  mkdir -p /tmp/mv/evidence
  out=$(timeout 900 /verif/.bin/checker -repo /tmp/mr -verif /tmp/mv -prop $p 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$out"; then echo "$id caught: $(grep -v KNOWN <<<"$out" | head -2 | tr '\n' ' ' | cut -c1-200)"; else echo "$id MISSED rc=$rc $(head -3 <<<"$out"|cut -c1-200)"; fi
done
git checkout -q -- .
