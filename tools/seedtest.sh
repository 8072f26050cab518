#!/bin/bash
# seedtest.sh ID...: validates seeded/ID in a scratch copy of /repo, bound over /repo in a private mount namespace
for id; do (
d=/verif/seeded/$id; w=/tmp/sd-$id; rm -rf $w; cp -a /repo $w; git -C $w checkout -q -- .
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $w /repo; cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD0 FAILED
mkdir /tmp/dm-$id; cp $d/* /tmp/dm-$id; 
bash /tmp/dm-$id/demo.sh >/tmp/sd-$id.d0 2>&1; echo demo-clean=\$?
git apply $d/patch.diff || echo PATCH FAILED
bash /opt/vp/build.sh >/tmp/sd-$id.b 2>&1 || echo BUILD1 FAILED
bash /tmp/dm-$id/demo.sh >/tmp/sd-$id.d1 2>&1; echo demo-bug=\$?
[ -n \"$NOTEST\" ] || { bash /opt/vp/test.sh /tmp/sd-$id.json >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sd-$id.json'))
bl=b.get('passed') or b.get('stable') or b
p=set(o['passed']); print('tests-missing', [x for x in bl if x not in p][:8])
P
}" > /tmp/sd-$id.log 2>&1
rm -rf /tmp/dm-$id
cd /verif; VF_REPO=$w VF_EVID=/tmp/sd-$id.ev timeout 900 python3 check.py $prop > /tmp/sd-$id.check 2>&1; rc=$?
echo "$id $prop: $(tr '\n' ' ' < /tmp/sd-$id.log) check-rc=$rc $(grep VIOLATION /tmp/sd-$id.check | tail -1)"
python3 - "$id" "$(grep VIOLATION /tmp/sd-$id.check | tail -1 | sed 's,replay=.*/replay/,,')" <<'P'
import json,sys,os
p='/verif/tools/caught.json'
j=json.load(open(p)) if os.path.exists(p) else {}
j[sys.argv[1]]='Caught: '+sys.argv[2] if sys.argv[2] else 'Missed.'
json.dump(j,open(p,'w'),indent=1,sort_keys=True)
P
rm -rf $w /tmp/sd-$id.ev
); done
