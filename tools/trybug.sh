#!/bin/bash
# tools/trybug.sh ID [check ...]: applies seeded/ID to /repo, builds, tests, runs the demo and the checks, undoes it.
id=$1; shift
d=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
git diff --quiet || { echo "/repo is dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/demo.$id.0 2>&1; echo "demo clean: $?"; fi
git apply $d/patch.diff || exit 1
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/build.$id 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/build.$id; exit 1; }
bash /opt/vp/test.sh /tmp/test.$id.json >/tmp/test.$id.log 2>&1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/test.$id.json'))
def names(x,k): 
    v=x.get(k); return set(v) if isinstance(v,list) else set()
base=set(b.get('stable',b.get('passed',[])))
print("tests: missing from passed:", sorted(base-set(r.get('passed',[])))[:8])
PY
bash $d/demo.sh >/tmp/demo.$id.1 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo.$id.1
fi
for c in ${@:-$P}; do (cd /verif; VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 bin/check.py $c quick 2>&1 | cut -c1-400 | tail -2); done
