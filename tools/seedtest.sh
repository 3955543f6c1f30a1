#!/bin/bash
# REPO=copy seedtest.sh ID: checks a planted bug: demo passes clean, fails patched, tests pass patched, check catches it.
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); s=$V/seeded/$id; R=${REPO:?copy of /repo}
. /opt/vp/env.sh; export GOSUMDB=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
cd $R || exit 1
[ -z "$(git status --porcelain)" ] || { echo "$R dirty"; exit 1; }
W=/tmp/seedtest.$id; mkdir -p $W; cp $s/demo_test.go $W/; sed "s#/repo#$R#g" $s/demo.sh > $W/demo.sh
bash $W/demo.sh >$W/clean 2>&1; c=$?
git apply $s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
go test -json -vet=off -count=1 -timeout 3m ./... > $W/tests.json 2>/dev/null
python3 /opt/vp/results.py $W/res.json gojson:$W/tests.json >/dev/null 2>&1
t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$W/res.json'))
print(len(set(map(str,b['stable']))-set(map(str,o['passed']))))")
bash $W/demo.sh >$W/patched 2>&1; p=$?
if [ "$NOCHECK" = "" ]; then
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
st=$(date +%s)
(cd $V && VERIF_SEED=1 ./bin/gosym -repo $R -verif $V -prop $prop -tier quick) >$W/check 2>&1; k=$?
fi
git checkout -q -- . ; git clean -fdq
echo "$id: demo clean=$c patched=$p lost-tests=$t check($prop)=$k $(( $(date +%s) - ${st:-0} ))s $(grep VIOLATION $W/check 2>/dev/null| head -2|tr '\n' ' ')"
