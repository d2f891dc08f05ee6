#!/bin/bash
# tools/mut.sh CHECK FILE 'python expression: s -> s'     runs a check against a changed copy of the sources
W=$(mktemp -d /tmp/mut.XXXXXX)
mkdir -p $W/repo; (cd /repo && git archive HEAD | tar x -C $W/repo)
python3 - "$W/repo/$2" "$3" <<'P'
import sys
p, e = sys.argv[1:3]
s = open(p).read(); n = eval(e)
assert n != s, "no change"
open(p, "w").write(n)
P
[ $? = 0 ] && (cd /verif && VERIF_REPO=$W/repo ./check.sh $1 2>&1 | tail -${4:-6}; cat evidence/replay/$1.txt 2>/dev/null | grep -a "^FAIL\|FAIL " | cut -c1-300 | head -3; rm -f /verif/evidence/replay/$1.txt)
rm -rf "$W"
