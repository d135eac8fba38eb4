#!/bin/bash
# mut.sh ID FILE 'python-expr old' 'new' : runs check ID on a scratch copy of /repo with one textual replacement.
set -e
D=$(mktemp -d /tmp/mut.XXXXXX)
cp -a ${SRC:-/repo}/. "$D"
python3 - "$D/$2" "$3" "$4" <<'PY'
import sys
p, a, b = sys.argv[1:]
s = open(p).read()
assert s.count(a) >= 1, 'pattern not found'
open(p, 'w').write(s.replace(a, b, 1))
PY
cd "$(dirname "$0")/.."
VERIF_REPO=$D python3 check.py "$1" ${5:-quick} 2>&1 | tail -${TAIL:-3} | cut -c1-${CUT:-300} || true
rm -rf "$D"
