#!/bin/bash
# plant.sh ID...: confirm planted changes in a scratch copy of /repo: each applies, builds, passes the stable
# tests, and its demo fails with it and passes without it. With CHECK=1 also run the property's check in /repo.
set -u
cd "$(dirname "$0")/.."
for id in "$@"; do
    d=$PWD/seeded/$id
    git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
    demo() { mkdir -p /tmp/plant-demo; rm -rf /tmp/plant-demo/d; mkdir /tmp/plant-demo/d; cp "$d"/* /tmp/plant-demo/d/; rm -f /tmp/plant-demo/d/*.diff /tmp/plant-demo/d/meta.json; (cd /repo && timeout 300 bash /tmp/plant-demo/d/demo.sh >/tmp/plant-demo/out 2>&1); }
    if [ "${FAST:-0}" != 1 ]; then
        demo; echo "$id demo unchanged: $?"
    fi
    git -C /repo apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
    if [ "${FAST:-0}" != 1 ]; then
        bash /opt/vp/build.sh >/tmp/plant-demo/build 2>&1; echo "$id build: $?"
        bash /opt/vp/test.sh /tmp/plant-demo/res.json >/tmp/plant-demo/test 2>&1
        python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/plant-demo/res.json'))
print("tests missing:", [x for x in b if x not in r['passed']])
P
        demo; echo "$id demo patched: $?"; tail -3 /tmp/plant-demo/out
    fi
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    if [ "${CHECK:-1}" = 1 ]; then
        VERIF_SEED=1 ./check.sh $p quick >/tmp/plant-demo/check 2>&1; echo "$id check $p: $?"; grep -m1 VIOLATION /tmp/plant-demo/check; tail -1 /tmp/plant-demo/check | cut -c1-300
    fi
    git -C /repo checkout -- .
    [ "${FAST:-0}" = 1 ] || bash /opt/vp/build.sh >/tmp/plant-demo/build 2>&1
done
