#!/bin/bash
# mut.sh PROP file python-expr(old) new  -> apply replacement, run check, restore
prop=$1; f=$2
cd ${MR:-/tmp/mr2} && git checkout -q -- . 
python3 - "$f" "$3" "$4" <<'P' || exit 9
import sys,os
f,o,n=sys.argv[1:4]
s=open(f).read()
if o not in s: print("OLD NOT FOUND"); sys.exit(1)
open(f,'w').write(s.replace(o,n,1))
P
. /opt/vp/env.sh; go build ./... || { echo NOBUILD; git checkout -q -- .; exit 9; }
for p in ${prop//,/ }; do timeout 900 ${CHK:-/tmp/x} -repo ${MR:-/tmp/mr2} -verif /tmp/mv -prop $p | cut -c1-250 | head -${N:-4}; done
git checkout -q -- .
