#!/bin/bash
# apply a seeded bug to /repo, build, test, demo, run its check, restore
id=$1; d=/verif/seeded/$id
cd /repo && git diff --quiet || { echo "repo dirty"; exit 2; }
[ -n "$NOBASE" ] || { bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/dev/null 2>&1; echo "demo unchanged: $?"; }
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/tb.log 2>&1; echo "build: $?"
[ -n "$NOTEST" ] || { bash /opt/vp/test.sh /tmp/tb.json >/tmp/tbt.log 2>&1; echo "tests rc: $?"; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','pass','passed','tests'):
            if k in x: return x[k]
    return x
print('baseline', str(b)[:0], 'result', {k:(v if not isinstance(v,(list,dict)) else len(v)) for k,v in r.items()} if isinstance(r,dict) else str(r)[:300])
P
}
bash $d/demo.sh >/tmp/tbd.log 2>&1; echo "demo patched: $?"
cd /verif
for p in ${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do ./check.py $p | tail -${T:-6}; done
git -C /repo checkout -- .
