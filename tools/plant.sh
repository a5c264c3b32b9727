#!/bin/bash
# tools/plant.sh ID...: validate planted changes: apply to /repo, build, test, demo, check; undo.
# SKIPTEST=1 skips the test suite; CHECKS="C01 C07" runs other checks too.
. /opt/vp/env.sh
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  demo=/tmp/plantdemo; rm -rf /tmp/plantdemo; mkdir -p $demo; cp $d/* $demo/; rm -f "$demo/patch.diff" "$demo/meta.json"
  cd /repo; git diff --quiet || { echo "repo dirty"; exit 9; }
  bash /opt/vp/build.sh >/dev/null || echo BUILDFAIL0
  (cd /repo; timeout 300 bash $demo/demo.sh >/tmp/plant.demo0 2>&1); r0=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  trap 'git -C /repo checkout -- .' EXIT
  bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || echo "$id BUILD FAILED"
  (cd /repo; timeout 300 bash $demo/demo.sh >/tmp/plant.demo1 2>&1); r1=$?
  t=skipped
  if [ -z "$SKIPTEST" ]; then bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1; t=$(tail -1 /tmp/plant.test); fi
  res=""
  for c in $prop $CHECKS; do
    (cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 run.py $c >/tmp/plant.chk.$c 2>&1); rc=$?
    res="$res $c:rc=$rc:$(grep -c "^VIOLATION property=$c" /tmp/plant.chk.$c)"
  done
  git checkout -- .
  python3 - "$id" "$res" <<'PY'
import json, os, sys
p = '/verif/tools/caught.json'
d = json.load(open(p)) if os.path.exists(p) else {}
old = {x.split(':')[0] for x in d.get(sys.argv[1], '').split() if ':' in x} 
new = [x.split(':')[0] for x in sys.argv[2].split() if x.endswith(':rc=1:1') or ':rc=1:' in x]
missed = [x.split(':')[0] for x in sys.argv[2].split() if ':rc=0:' in x]
cur = set(d.get(sys.argv[1], '').replace('missed', '').split(', ')) - {''}
cur = sorted((cur | set(new)) - set(missed))
d[sys.argv[1]] = ', '.join(cur) or 'missed'
json.dump(dict(sorted(d.items())), open(p, 'w'), indent=0)
PY
  echo "$id prop=$prop demo0=$r0 demo1=$r1 tests=[$t] $res"
  rm -rf /tmp/plantdemo
done
cd /repo; bash /opt/vp/build.sh >/dev/null
