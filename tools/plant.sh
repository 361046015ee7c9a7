#!/bin/bash
# plant.sh ID [nocheck|notest]: confirm a planted bug (seeded/ID) in scratch copies bound over /repo in a
# private mount namespace (the real /repo is never touched), then run the property's check against it.
ID=$1; MODE=${2:-}; B=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
S=$(mktemp -d /tmp/plant.XXXXXX); trap "rm -rf $S" EXIT
cp -a /repo $S/bad; cp -a /repo $S/good; git -C $S/bad checkout -q -- . ; git -C $S/good checkout -q -- .
git -C $S/bad apply $B/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
mkdir $S/v $S/demo; cp -a /verif/. $S/v/; rm -rf $S/v/seeded; cp $B/* $S/demo; rm -f $S/demo/*.diff $S/demo/meta.json
inns() { unshare -Urm bash -c "mount --bind $1 /repo; cd /repo; $2"; }
if [ "$MODE" != checkonly ]; then
inns $S/good "bash /opt/vp/build.sh >/dev/null 2>&1; bash $S/demo/demo.sh" >$S/o 2>&1; r1=$?
[ $r1 = 0 ] || tail -5 $S/o
inns $S/bad "bash /opt/vp/build.sh >$S/b 2>&1 || { echo BUILD-FAILED; tail -3 $S/b; }; bash $S/demo/demo.sh" >$S/o 2>&1; r2=$?
tail -2 $S/o
if [ "$MODE" != notest ]; then inns $S/bad "bash /opt/vp/test.sh $S/out.json" >/dev/null 2>&1
r3=$(python3 -c "
import json; o=json.load(open('$S/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b
print('tests-ok' if set(st)<=set(o['passed']) else 'TESTS-FAIL '+str(set(st)-set(o['passed'])))"); fi
echo "$ID ($PROP): demo good=$r1 bad=$r2 $r3"
fi
if [ "$MODE" != nocheck ]; then
inns $S/bad "cd /verif; mount --bind $S/v /verif; cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $PROP quick" >$S/c 2>&1; rc=$?
echo "$ID: check rc=$rc"; grep -h -E "VIOLATION|KNOWN" $S/c | head -4
fi
