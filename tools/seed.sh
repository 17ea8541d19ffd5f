#!/bin/bash
# seed.sh ID: check that seeded/ID builds, passes the stable tests, and that its demo tells the trees apart;
# then run the property's check against it.  Leaves /repo as it was.
id=$1; D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash $D/demo.sh >/tmp/w/demo0.log 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/w/demo0.log; exit 1; }
git apply $D/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/w/sb.log 2>&1 || { echo "$id: does not build"; tail -5 /tmp/w/sb.log; exit 1; }
bash /opt/vp/test.sh /tmp/w/so.json >/tmp/w/st.log 2>&1
python3 - <<'P' || { echo "$id: tests fail"; exit 1; }
import json,sys
o=json.load(open('/tmp/w/so.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b.get('stable') or b.get('passed') or b); m=sorted(st-set(o['passed'])); print('missing',m) if m else 0; sys.exit(1 if m else 0)
P
bash $D/demo.sh >/tmp/w/demo1.log 2>&1 && { echo "$id: demo passes with the patch"; exit 1; }
cd /verif; if [ "$2" = all ]; then PS=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))"); else PS=$P; fi
for p in $PS; do t=$(date +%s); python3-vt vc/check.py $p >/tmp/w/chk.$p.log 2>&1; rc=$?; echo "$id ($P): check $p exit $rc $(grep VIOLATION /tmp/w/chk.$p.log) $(( $(date +%s)-t ))s"; done
