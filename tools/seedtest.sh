#!/bin/bash
# seedtest.sh ID [CHECK...] : demo without and with the patch, and the checks of the property, on scratch copies
V=$(cd "$(dirname "$0")/.." && pwd); i=$1; shift
W=/tmp/seedwt.$$; B=/tmp/seedbuild.$$
trap 'rm -rf "/tmp/seedwt.$$" "/tmp/seedbuild.$$"' EXIT
mkdir -p $W; git -C ${SEEDREPO:-/repo} archive HEAD | tar -x -C $W
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
(cd $W && bash $V/seeded/$i/demo.sh > /tmp/demo.$i.clean 2>&1); a=$?
(cd $W && git init -q . && git apply $V/seeded/$i/patch.diff) || { echo "$i: patch does not apply"; exit 1; }
(cd $W && bash $V/seeded/$i/demo.sh > /tmp/demo.$i.bug 2>&1); b=$?
echo "$i: demo clean $a, with bug $b: $(grep -v executions /tmp/demo.$i.bug | head -3 | cut -c1-200)"
[ $a = 0 ] || tail -5 /tmp/demo.$i.clean
mkdir -p $B
for c in ${@:-$P}; do
  PDC_REPO=$W VERIF_BUILD=$B VERIF_EVIDENCE=$B timeout 900 python3 $V/check.py $c quick > $B/out.txt 2>&1; rc=$?
  echo "$i: check $c rc $rc: $(grep -c ^VIOLATION $B/out.txt) violations in: $(grep -E '[1-9][0-9]* violation kinds' $B/out.txt | cut -d: -f1 | tr '\n' ' ')"
  [ $rc = 0 ] || grep -B3 ^VIOLATION $B/out.txt | head -8 | cut -c1-200
done
