# try.sh file sedexpr prop...
f=$1; e=$2; shift 2
d=$(mktemp -d /tmp/mutXXXX); cp -a /repo/src $d/src; sed -i "$e" $d/src/$f
diff -q /repo/src/$f $d/src/$f >/dev/null && echo "NO CHANGE"
diff /repo/src/$f $d/src/$f | head -6
for p in "$@"; do VERIF_REPO=$d python3 /verif/check.py $p quick | cut -c1-300 | tail -4; done
rm -rf $d
