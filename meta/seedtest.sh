#!/bin/bash
# Confirm a planted bug in a scratch copy: builds, passes the stable tests, demo fails with it and passes without,
# then runs the check of its property against the copy. usage: seedtest.sh ID [nocheck]
id=$1; S=/verif/seeded/$id; W=/tmp/wt
[ -d $W ] || { cp -a /repo $W; rm -rf $W/build; mkdir -p /tmp/wtvp; for f in build.sh test.sh; do sed "s#/repo#$W#g; s#/opt/vp/build.sh#/tmp/wtvp/build.sh#" /opt/vp/$f > /tmp/wtvp/$f; done; }
cd $W && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -fdq -e build || exit 1
bash /tmp/wtvp/build.sh >/tmp/wtvp/log 2>&1 || { echo base build failed; exit 1; }
bash $S/demo.sh >/tmp/wtvp/demo0 2>&1; r0=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
bash /tmp/wtvp/build.sh >/tmp/wtvp/log 2>&1 || { echo build failed; tail -5 /tmp/wtvp/log; git checkout -qf .; exit 1; }
bash /tmp/wtvp/test.sh /tmp/wtvp/t.json >/dev/null 2>&1
miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/wtvp/t.json'))
base=set(b.get('stable',b.get('passed',b if isinstance(b,list) else [])))
print(sorted(base-set(t['passed']))[:4])")
bash $S/demo.sh >/tmp/wtvp/demo1 2>&1; r1=$?
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
v=skipped
if [ "$2" != nocheck ]; then v=$(cd /verif && VP_REPO=$W VERIF_SEED=1 python3 check.py $p quick 2>&1 | tail -2 | cut -c1-300); fi
git checkout -qf .
echo "$id prop=$p demo clean=$r0 bug=$r1 tests-missing=$miss"; echo "   $v"
