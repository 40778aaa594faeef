#!/bin/bash
# tools/seed_confirm.sh ID [nocheck|checkonly]: confirms a planted bug in a scratch copy of /repo (bind-mounted over /repo in a private mount namespace)
id=$1; mode=$2
S=/verif/seeded/$id
W=/tmp/seed.$id
[ -f "$S/patch.diff" ] || { echo "no $S"; exit 2; }
mkdir -p $W && rm -rf $W/repo && cp -a /repo $W/repo
cp -a $S $W/demo
unshare -m bash -c "
mount --bind $W/repo /repo; mount -t tmpfs none /verif/evidence
cd /repo
if [ '$mode' != checkonly ]; then
 bash $W/demo/demo.sh > $W/demo0.log 2>&1; echo \"$id demo unchanged: \$?\"
fi
git apply $S/patch.diff || { echo APPLY FAILED; exit 1; }
if [ '$mode' != checkonly ]; then
 bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo \"$id BUILD FAILED\"; tail -5 $W/build.log; }
  timeout 200 bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1
 python3 -c \"import json;d=json.load(open('$W/t.json'));b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if isinstance(json.load(open('/opt/vp/BASELINE.json')),dict) and 'stable' in json.load(open('/opt/vp/BASELINE.json')) else []);print('$id tests passed',len(d['passed']),'failed',len(d['failed']),d['failed'][:5])\"
 bash $W/demo/demo.sh > $W/demo1.log 2>&1; echo \"$id demo patched: \$?\"
fi
if [ '$mode' != nocheck ]; then
 cd /verif; p=\$(python3 -c \"import json;print(json.load(open('$S/meta.json'))['property'])\")
 VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py \$p > $W/check.log 2>&1; echo \"$id check \$p: \$? \$(grep VIOLATION $W/check.log)\"; grep -h '' /verif/evidence/\$p.replay.txt 2>/dev/null | sed -n 2,3p
fi
"
cp $W/*.log /tmp/w/ 2>/dev/null
rm -rf $W
