#!/bin/bash
# mut.sh PROP FILE 'python-expression on s' : run gvc on a mutated copy
D=$(mktemp -d /tmp/mut/XXXXXX); cp -a /repo/. $D/
python3 - "$D/$2" "$3" "$4" <<'PY'
import sys
p,a,b=sys.argv[1:4]
s=open(p).read()
assert a in s,"pattern not found"
s=s.replace(a,b,1)
open(p,'w').write(s)
PY
[ $? = 0 ] && (cd $D && . /opt/vp/env.sh && go build ./... ) && /verif/gvc/gvc -repo $D -prop $1 | grep -v " ok$" | cut -c1-${W:-260}
rm -rf "$D"
