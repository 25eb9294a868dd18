#!/bin/bash
# tools/plant.sh ID [notests] [nocheck]: confirm a planted bug in a scratch copy of /repo
ID=$1; D=/verif/seeded/$ID; W=/tmp/plant-$ID.$$
PROP=$(/opt/venv/bin/python -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p /tmp/plantlog; LOG=/tmp/plantlog/$ID.log; : > $LOG
cp -a ${VERIF_BASE:-/repo} $W; find $W -name __pycache__ -prune -exec rm -rf {} + ; trap "rm -rf "$W" /tmp/plantdemo-$ID.$$" EXIT
mkdir -p /tmp/plantdemo-$ID.$$ && cp -a $D/. /tmp/plantdemo-$ID.$$/ && rm -f /tmp/plantdemo-$ID.$$/*.diff /tmp/plantdemo-$ID.$$/meta.json
export PYTHONDONTWRITEBYTECODE=1
run_demo() { (cd $W && PYTHONPATH=$W timeout 300 bash /tmp/plantdemo-$ID.$$/demo.sh >>$LOG 2>&1); echo $?; }
A=$(run_demo)
git -C $W apply $D/patch.diff || { echo "$ID patch does not apply"; exit 1; }
B=$(run_demo)
T=skipped
if [ "$2" != notests ]; then
  sed "s#/repo#$W#g" /opt/vp/test.sh > $W/.t.sh
  PYTHONPATH=$W bash $W/.t.sh $W/.t.json >>$LOG 2>&1
  T=$(/opt/venv/bin/python - <<E
import json
r=json.load(open("$W/.t.json")); s=json.load(open("/opt/vp/BASELINE.json"))["stable"]
p=set(r.get("passed",[])); bad=[x for x in s if x not in p]
print("tests-ok" if not bad else f"tests-FAIL {bad[:3]}")
E
)
fi
C=skipped
if [ "$3" != nocheck ]; then
  (cd /verif && VERIF_REPO=$W VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py $PROP --tier quick >>$LOG 2>&1); C=$?
fi
echo "$ID property=$PROP demo clean=$A patched=$B $T check=$C $(grep -a '^violation:' $LOG | tail -1 | cut -c1-160)"
