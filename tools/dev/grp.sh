# grp.sh name groups... : build all groups in parallel, run each
n=$1; shift
for g in $*; do ( /tmp/cc.sh $n /tmp/${n}_$g -DGROUP=$g $X ) & done; wait
for g in $*; do rm -f /tmp/o$g.json; /tmp/${n}_$g --out /tmp/o$g.json $Y; echo "== group $g"; python3 /tmp/show.py /tmp/o$g.json | cut -c1-330; done
