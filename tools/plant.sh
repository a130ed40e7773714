#!/bin/bash
# tools/plant.sh ID [CHECK...] - confirm the planted bug seeded/ID in a scratch copy of /repo:
# builds, passes the stable tests, demo 0 without / nonzero with the patch; then run its check(s).
ID=$1; shift
S=/verif/seeded/$ID; W=/tmp/plant/$ID
PY=/opt/venv/bin/python; export PYTHONDONTWRITEBYTECODE=1 TZ=UTC
prop=$($PY -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "/tmp/plant/$ID"; mkdir -p /tmp/plant; cp -a ${BASE:-/repo} "$W"
cp -r "$S" "$W.demo"; rm -f "$W.demo"/*.diff "$W.demo"/meta.json
cd "$W" || exit 2
ns() { unshare -Urn sh -c 'ip link set lo up; exec "$@"' sh "$@"; }
ns timeout 300 bash "$W.demo/demo.sh" >"$W.d0" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 2; }
ns timeout 300 bash "$W.demo/demo.sh" >"$W.d1" 2>&1; d1=$?
t=skipped
if [ -z "$NOTEST" ]; then
ns $PY -m pytest -q -p no:cacheprovider --continue-on-collection-errors --forked --timeout=15 -o timeout_func_only=true -o junit_family=xunit2 --junitxml="$W.xml" test >/dev/null 2>&1
/usr/bin/python3 /opt/vp/results.py "$W.json" "junit:$W.xml" >/dev/null
t=$($PY - "$W.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(d):
    for k in ('passed','stable','pass','tests'):
        if k in d:
            v=d[k]; return set(v) if isinstance(v,list) else {n for n,s in v.items() if s in ('passed','pass',True)}
    raise SystemExit(str(list(d)))
m=passed(b)-passed(r); print('ok' if not m else 'BROKEN:%d %s'%(len(m),sorted(m)[:3]))
P
)
fi
echo "$ID: demo $d0/$d1 tests $t"
for c in ${@:-$prop}; do
  VERIF_REPO=$W VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 $PY /verif/check.py $c >"$W.$c" 2>&1; rc=$?
  echo "$ID: $c rc=$rc $(tail -1 "$W.$c" | cut -c1-220)"
done
[ -n "$KEEP" ] || rm -rf "/tmp/plant/$ID" "/tmp/plant/$ID.demo"
