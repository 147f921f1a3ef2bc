#!/bin/bash
# apply a planted change to /repo, build, run the stable tests, its demo and its property's check, undo
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
if [ "$2" != nobase ]; then bash $d/demo.sh >/tmp/ts_demo0.txt 2>&1; echo "$id: demo unchanged rc=$?"; fi
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
if [ "$2" != checkonly ]; then
bash /opt/vp/build.sh >/tmp/ts_build.txt 2>&1; echo "build rc=$?"
bash /opt/vp/test.sh /tmp/ts_out.json >/tmp/ts_test.txt 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/ts_out.json'))
st=b.get('stable') or b.get('passed') or b.get('tests') or b
p=set(o.get('passed',[]))
miss=[x for x in st if x not in p] if isinstance(st,list) else '?'
print('stable tests missing:',miss)
P
bash $d/demo.sh >/tmp/ts_demo1.txt 2>&1; echo "demo patched rc=$?"
fi
cd /verif; for p in ${3:-$prop}; do timeout 900 python3-vt vp/check.py $p > /tmp/ts_check.txt 2>&1; echo "check $p rc=$?"; grep VIOLATION /tmp/ts_check.txt | head -3; tail -3 /tmp/ts_check.txt | cut -c1-300; done
