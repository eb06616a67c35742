#!/bin/bash
# seedcheck.sh [ID...]: for each planted bug: demo on the unchanged tree, build + tests + demo + its check with the patch.
cd /verif/seeded || exit 1
for id in ${@:-*}; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/seed.log 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  (cd /repo && bash $d/demo.sh >/tmp/seed2.log 2>&1); b=$?
  bash /opt/vp/build.sh >/tmp/seedb.log 2>&1; c=$?
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  n=$(python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seed.json'))
s=json.dumps(r)
p=r.get('passed') or r.get('pass') or []
print(len(b-set(p)))
P
)
  o=$(cd /verif && python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p demo0=$a demo1=$b build=$c missing=$n check=$rc $(echo "$o" | grep -m1 VIOLATION)"
done
