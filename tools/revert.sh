#!/bin/bash
# revert.sh HASH PROP...: run checks against a scratch copy of /repo with one fix commit undone
h=$1; shift
d=$(mktemp -d /tmp/revXXXXXX)
git -C /repo archive HEAD dreimac | tar x -C $d
(cd $d && git -C /repo show $h | patch -R -p1 -s -f) || { echo "patch failed"; rm -rf "$d"; exit 2; }
for p in "$@"; do DREIMAC_REPO=$d python3 /verif/check.py $p > $d/out; echo "$h $p exit $?"; head -3 $d/out | cut -c1-300; tail -1 $d/out; done
rm -rf "$d"
