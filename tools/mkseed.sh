#!/bin/bash
# usage: mkseed.sh ID PROP   with the bug applied (uncommitted) in /repo and
# /verif/seeded/ID/{demo.rs,needs.txt,breaks.txt} in place. Saves the patch, verifies everything, reverts /repo.
ID=$1; PROP=$2; D=/verif/seeded/$ID
cd /repo
git diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
python3 - "$D" "$PROP" <<'P'
import json,sys,os
d,p=sys.argv[1:]
os.path.exists(d+"/needs.txt") and json.dump({"property":p,"needs":open(d+'/needs.txt').read().strip(),"what_it_breaks":open(d+'/breaks.txt').read().strip()},open(d+'/meta.json','w'),indent=1)
P
rm -f $D/needs.txt $D/breaks.txt
[ -f $D/demo.sh ] || cp /verif/tools/demo.sh $D/demo.sh
trap 'cd /repo; git checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
 bash /opt/vp/build.sh >/tmp/seed.build.log 2>&1 || { echo "$ID: BUILD FAILS"; exit 1; }
 bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.test.log 2>&1
 python3 - <<'P'
import json
d=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
bl=b.get('passed') or b.get('stable') or b
miss=[t for t in bl if t not in set(d['passed'])]
print('tests passed',len(d['passed']),'missing',miss[:8])
P
fi
timeout 300 bash $D/demo.sh > /tmp/seed.demo1.log 2>&1; echo "demo with bug: $? (want != 0): $(tail -1 /tmp/seed.demo1.log | cut -c1-200)"
cd /verif; bash check.sh $PROP > /tmp/seed.check.log 2>&1; echo "check $PROP: $? (want 1): $(head -2 /tmp/seed.check.log | cut -c1-300)"
cd /repo; git checkout -q -- .
timeout 300 bash $D/demo.sh > /tmp/seed.demo2.log 2>&1; echo "demo without: $? (want 0): $(tail -1 /tmp/seed.demo2.log| cut -c1-200)"
