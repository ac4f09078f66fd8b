#!/bin/bash
# seedtest.sh ID [notest]: build + stable tests + demo on a patched scratch copy; then the property's quick check
id=$1; s=/verif/seeded/$id; d=/tmp/seed_$id
rm -rf "$d"; cp -a /repo "$d"; (cd $d && git apply $s/patch.diff) || { echo "$id: patch does not apply"; exit 1; }
(cd /repo && bash $s/demo.sh >/tmp/seed_$id.clean 2>&1); c=$?
(cd $d && bash $s/demo.sh >/tmp/seed_$id.pat 2>&1); p=$?
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
ck=$(VERIF_REPO=$d python3 /verif/check.py $prop quick 2>&1 | grep -E "VIOLATION|error|OK|held" | tail -1 | cut -c1-160)
t=skipped
if [ -z "$2" ]; then
 unshare -m bash -c "mount --bind $d /repo && bash /opt/vp/build.sh >/tmp/seed_$id.b 2>&1 && bash /opt/vp/test.sh /tmp/seed_$id.json >/tmp/seed_$id.t 2>&1"
 t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); st=b.get('stable') or b.get('passed')
try: r=set(json.load(open('/tmp/seed_$id.json'))['passed'])
except Exception as e: r=set()
m=[x for x in st if x not in r]
print('tests ok' if not m else 'TESTS FAIL %d %s'%(len(m),m[:3]))
P
)
fi
echo "$id [$prop]: demo clean=$c patched=$p; $t; check: $ck"
rm -rf "$d"
