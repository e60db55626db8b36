#!/bin/bash
# works in $SR (default /tmp/sr, a scratch copy of /repo with its own build), never in /repo
SR=${SR:-/tmp/sr}
if [ ! -d $SR/_build ]; then mkdir -p $SR && cp -a /repo/. $SR/ && rm -rf "$SR/_build"; fi
for f in build test; do sed "s#/repo#$SR#g; s#/opt/vp/build.sh#$SR.build.sh#" /opt/vp/$f.sh > $SR.$f.sh; done
# seed.sh ID PROPERTY "needs" "what it breaks"   with the change applied in $SR and demo.cc in /verif/seeded/ID
# records the patch, checks that it builds, passes the tests, fails the demo, and runs the property's check on it; then undoes it
id=$1; d=/verif/seeded/$id
git -C $SR diff -- src > $d/patch.diff
[ -s $d/patch.diff ] || { echo "$id: EMPTY PATCH"; exit 1; }
[ -f $d/demo.sh ] || cp /verif/tools/demo.sh $d/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
bash $SR.test.sh /tmp/seedtest.json >/tmp/seedbuild.log 2>&1
python3 - <<'P'
import json
r=json.load(open('/tmp/seedtest.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
miss=[x for x in b if x not in r['passed']]
print("tests:", "pass" if not miss else "FAIL %s"%miss)
P
(cd $SR && bash $d/demo.sh >/tmp/seeddemo.log 2>&1); echo "demo with patch: exit $? (want nonzero)"; tail -2 /tmp/seeddemo.log
(cd /verif && VERIF_REPO=$SR timeout 900 python3 check.py $2 --tier quick >/tmp/seedcheck.log 2>&1; echo "check $2: exit $?"; grep VIOLATION /tmp/seedcheck.log | head -2; tail -1 /tmp/seedcheck.log | cut -c1-200)
git -C $SR checkout -- .
(cd $SR && bash $SR.build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/seeddemo0.log 2>&1; echo "demo without patch: exit $? (want 0)")
