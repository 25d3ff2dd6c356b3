#!/bin/bash
# runseed.sh ID...: apply the planted bug in /repo, build, test, demo, run its check; undo.  Results go to tools/seed_results.json
cd /verif
for id in "$@"; do
  p=seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")
  git -C /repo checkout -q -- . 
  base=$( [ -n "$SKIPBASE" ] && echo skip || (cd /repo && bash /verif/$p/demo.sh >/tmp/seed_demo0.log 2>&1; echo $?) )
  git -C /repo apply /verif/$p/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/seed_o.json >/tmp/seed_b.log 2>&1
  t=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/seed_o.json'))
m=sorted(b-set(o['passed'])); print('tests ok' if not m else 'TESTS FAIL: '+str(len(m))+' '+m[0])
P
)
  dm=$(cd /repo && bash /verif/$p/demo.sh >/tmp/seed_demo1.log 2>&1; echo $?)
  s=$(date +%s); out=$(timeout 900 python3-vt vcg/check.py $prop --tier quick 2>&1); rc=$?; e=$(( $(date +%s) - s ))
  vio=$(echo "$out" | grep -c "^VIOLATION property=$prop"); nf=$(echo "$out" | grep -c no-failing-input-found); ob=$(echo "$out" | grep "failed obligation" | head -1 | cut -c1-150)
  git -C /repo checkout -q -- .
  v="missed"; [ $rc = 1 ] && [ $vio = 1 ] && v="caught"; [ $nf = 1 ] && v="$v (no failing input)"
  echo "$id [$prop] demo base=$base patched=$dm; $t; check rc=$rc $v ${e}s; $ob"
  python3 - "$id" "$v: $ob" <<'P'
import json,sys
f='/verif/tools/seed_results.json'
try: r=json.load(open(f))
except Exception: r={}
r[sys.argv[1]]=sys.argv[2].replace('failed obligation: ','').replace('|','/')[:110]
json.dump(r,open(f,'w'),indent=1,sort_keys=True)
P
done
(bash /opt/vp/build.sh >/dev/null 2>&1)
