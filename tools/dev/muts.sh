#!/bin/bash
# muts.sh file(rel. to src) PROP < list of sed expressions, one per line: prints MISSED/caught for each
f=$1; p=$2
while IFS= read -r e; do [ -z "$e" ] && continue
d=$(mktemp -d /tmp/mutXXXX); cp -a ${REPO:-/repo}/src $d/src; sed -i "$e" $d/src/$f
if diff -q ${REPO:-/repo}/src/$f $d/src/$f >/dev/null; then echo "NOCHANGE $e"; else
o=$(VERIF_REPO=$d python3 /verif/check.py $p quick 2>&1); r=$?
case $r in 1) echo "caught   $e :: $(echo "$o" | grep -m1 VIOLATION -A1 | tail -1 | cut -c1-${W:-90})";; 0) echo "MISSED   $e";; *) echo "ERR $r    $e :: $(echo "$o" | grep -m1 error | cut -c1-120)";; esac; fi
rm -rf $d; done
