#!/bin/bash
# seedtest.sh ID [check...]: applies seeded/ID/patch.diff to a scratch copy bound over /repo in a private mount
# namespace; builds, runs the stable tests, the demo on clean and patched trees, then the checks.
ID=$1; shift
SC=/tmp/sc-$ID
[ -d $SC ] || { mkdir -p $SC; cp -a /repo $SC/repo; }
git -C $SC/repo checkout -q -- . ; git -C $SC/repo fetch -q /repo HEAD && git -C $SC/repo reset -q --hard FETCH_HEAD
mkdir -p $SC/demo $SC/vb; cp -r /verif/seeded/$ID/. $SC/demo/
export ID SC CHECKS="$*"
unshare -Urm bash -c '
mount --bind $SC/repo /repo; cd /repo
bash /opt/vp/build.sh > $SC/b0.log 2>&1 || { echo "clean build failed"; exit 1; }
timeout 300 bash $SC/demo/demo.sh > $SC/d0.log 2>&1; echo "demo clean: $?"
git apply $SC/demo/patch.diff || { echo "does not apply"; exit 1; }
if [ -z "$SKIPTEST" ]; then
bash /opt/vp/test.sh $SC/t.json > $SC/t.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$SC/t.json"))
st=b["stable"]; miss=[x for x in st if x not in t["passed"]]
print("stable passed", len(st)-len(miss), "of", len(st), miss)
P
else bash /opt/vp/build.sh > $SC/b1.log 2>&1; fi
timeout 300 bash $SC/demo/demo.sh > $SC/d1.log 2>&1; echo "demo patched: $?"
rm -rf $SC/verif; mkdir -p $SC/verif; cp -r /verif/run.py /verif/checks /verif/known_findings.txt /verif/properties.jsonl $SC/verif/; cd $SC/verif
for c in $CHECKS; do VERIF_BUILD=$SC/vb timeout 900 python3 run.py $c --tier quick > $SC/c-$c.log 2>&1; echo "check $c: $?  $(grep -m1 VIOLATION $SC/c-$c.log)"; done
'
