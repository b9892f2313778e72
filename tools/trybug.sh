#!/bin/bash
# trybug.sh <id> [check...]: applies seeded/<id>/patch.diff in a scratch copy, builds, runs the suite and the demo, then the checks
ID=$1; shift
W=/tmp/vpwt
[ -d $W ] || { cp -a /repo $W; find $W/_build -mindepth 1 -delete; }
[ -f /tmp/vpwt-build.sh ] || { sed "s#/repo#$W#g" /opt/vp/build.sh > /tmp/vpwt-build.sh; sed "s#/repo#$W#g; s#/opt/vp/build.sh#/tmp/vpwt-build.sh#" /opt/vp/test.sh > /tmp/vpwt-test.sh; }
git -C $W fetch -q /repo HEAD && git -C $W checkout -q -f FETCH_HEAD
if [ -z "$SKIP" ]; then
bash /tmp/vpwt-build.sh > /tmp/vpwt.log 2>&1 || { echo "clean build failed"; exit 1; }
(cd $W && timeout 300 bash ${SD:-/verif/seeded}/$ID/demo.sh > /tmp/vpwt-demo0.log 2>&1); d0=$?
git -C $W apply ${SD:-/verif/seeded}/$ID/patch.diff || exit 1
bash /tmp/vpwt-build.sh > /tmp/vpwt.log 2>&1 || { echo "patched build failed"; tail -5 /tmp/vpwt.log; exit 1; }
(cd $W && timeout 300 bash ${SD:-/verif/seeded}/$ID/demo.sh > /tmp/vpwt-demo1.log 2>&1); d1=$?
bash /tmp/vpwt-test.sh /tmp/vpwt-res.json > /tmp/vpwt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')).get('stable'); r=json.load(open('/tmp/vpwt-res.json'))
p=set('_build/'+x.split('_build/')[-1] for x in r['passed'])
print('tests: passed %d; stable missing: %s'%(len(p),[x for x in b if x not in p][:8]))
P
echo "demo clean=$d0 patched=$d1"
else git -C $W apply ${SD:-/verif/seeded}/$ID/patch.diff || exit 1; fi
for c in "$@"; do
  (cd ${VD:-/verif} && VP_REPO=$W VP_BUILD=/tmp/vpwt-verif timeout 900 python3 check.py $c --tier quick > /tmp/vpwt-$c.log 2>&1; echo "check $c exit $?"; grep -E "^(VIOLATION|violation|note)" /tmp/vpwt-$c.log | cut -c1-300; tail -1 /tmp/vpwt-$c.log | cut -c1-100)
done
git -C $W checkout -q -f FETCH_HEAD
find /tmp/vpwt-verif -maxdepth 1 -name 'tree-*' -exec rm -rf {} + 2>/dev/null
