#!/bin/bash
# tools/plant.sh ID [check...]: tries a planted bug in /repo: demo on the clean tree, then build, tests, demo and checks with the patch; undoes it.
cd /repo; S=/verif/seeded/$1; ID=$1; shift
if [ -z "$NOCLEAN" ]; then $S/demo.sh > /tmp/plant.demo0 2>&1; echo "$ID demo clean: $?"; fi
git apply $S/patch.diff || { echo "does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh > /tmp/plant.build 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/plant.build; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
def passed(x):
    for k in ('stable','passed','pass','tests'):
        if k in x:
            v=x[k]; return set(v if isinstance(v,list) else [a for a,c in v.items() if c in ('pass','passed',True,'ok')])
    return set()
m=passed(b)-passed(r); print("stable tests now failing:", sorted(m)[:5], len(passed(b)))
P
fi
$S/demo.sh > /tmp/plant.demo1 2>&1; echo "$ID demo with patch: $? $(tail -1 /tmp/plant.demo1 | cut -c1-150)"
for c in "$@"; do (cd /verif && ./check.sh $c quick > /tmp/plant.check 2>&1; echo "$ID $c -> $? $(grep -m1 -A1 VIOLATION /tmp/plant.check | head -2 | tr '\n' ' ')"); done
