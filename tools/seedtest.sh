#!/bin/bash
# seedtest.sh ID...: in /repo: apply, build, stable tests, demo (must fail); revert, build, demo (must pass); then run the check with the patch
cd /repo
for id in "$@"; do
D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git diff --quiet || { echo "/repo dirty"; exit 1; }
git apply $D/patch.diff || { echo "$id: does not apply"; continue; }
if bash /opt/vp/build.sh > /tmp/sb.log 2>&1; then
  bash /opt/vp/test.sh /tmp/st.json > /dev/null 2>&1
  T=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/st.json'))
st=b.get('stable') or b.get('passed') or b.get('tests') or b
ps=set(r.get('passed') or [])
print(len([t for t in st if t not in ps]))
PY
)
  cp -r $D /tmp/demo_$id; timeout 300 bash /tmp/demo_$id/demo.sh > /tmp/sd1.log 2>&1; R1=$?
else T=x; R1=BUILDFAIL; tail -5 /tmp/sb.log; fi
if [ -z "$NOCHECK" ]; then cd /verif; python3 check.py $P > /tmp/sc.log 2>&1; C=$?; cd /repo; grep -h "unconfirmed\|^[a-z-]* in scenario" /tmp/sc.log | head -3; fi
git checkout -q -- .
bash /opt/vp/build.sh > /tmp/sb.log 2>&1
timeout 300 bash /tmp/demo_$id/demo.sh > /tmp/sd0.log 2>&1; R0=$?
rm -rf /tmp/demo_$id
echo "== $id ($P): tests failing $T, demo patched $R1 (want !=0) clean $R0 (want 0), check exit $C"
[ "$R0" = 0 ] || tail -3 /tmp/sd0.log
[ "$R1" = 0 ] && tail -3 /tmp/sd1.log
done
