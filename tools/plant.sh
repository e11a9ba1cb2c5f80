#!/bin/bash
# plant.sh ID [CHECK...]: confirm seeded/ID in a scratch copy of /repo (builds there through a private mount
# namespace, so /repo is untouched), then run the named checks (default: the bug's own property) against the copy.
# PLANT_NOTEST=1 skips the test suite, PLANT_KEEP=1 keeps the copy.
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd); s=$V/seeded/$id
p=/tmp/plant-$id; log=/tmp/plant-$id.log
rm -rf "$p"; cp -a /repo "$p"; : > $log
git -C "$p" checkout -q -- .
inns() { unshare -m bash -c "mount --bind $p /repo && cd /repo && $1"; }
cp -a "$s" /tmp/plantd-$id
bld() { inns "bash /opt/vp/build.sh" >> $log 2>&1; }
dem() { inns "timeout 300 bash /tmp/plantd-$id/demo.sh" >> $log 2>&1; }
bld || { echo "$id: base build failed"; exit 2; }
dem; r0=$?
git -C "$p" apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
bld || { echo "$id: build failed"; tail -5 $log; exit 2; }
dem; r1=$?
echo "$id: demo unchanged=$r0 patched=$r1"
if [ -z "$PLANT_NOTEST" ]; then
  inns "bash /opt/vp/test.sh /tmp/plant-$id.json" >> $log 2>&1
  python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant-%s.json'%sys.argv[1]))
l=b['stable']
l=l if isinstance(l,list) else list(l)
m=[t for t in l if t not in set(r['passed'])]
print(sys.argv[1],'tests: baseline',len(l),'missing',len(m),m[:5])
P
fi
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
[ "$PLANT_NOCHECK" ] || for c in ${@:-$prop}; do
  VF_REPO=$p timeout 900 python3 $V/tools/check.py $c > /tmp/plant-$id.$c 2>&1; r=$?
  echo "$id: check $c exit $r $(grep -c VIOLATION /tmp/plant-$id.$c) $(grep VIOLATION /tmp/plant-$id.$c | head -1 | cut -c1-200)"
done
rm -rf /tmp/plantd-$id; [ "$PLANT_KEEP" ] || rm -rf "/tmp/plant-$id"
