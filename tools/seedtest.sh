#!/bin/bash
# seedtest.sh ID...: confirm planted bugs (build, tests, demo both ways) and run the property's check
V=/verif
for id in "$@"; do
  s=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "dirty /repo"; exit 1; }
  r=""
  if [ -z "$SKIPDEMO" ]; then bash $s/demo.sh > /tmp/seed_demo0 2>&1; r="clean-demo=$?"; fi
  git -C /repo apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$SKIPDEMO" ]; then
    bash $s/demo.sh > /tmp/seed_demo1 2>&1; r="$r bug-demo=$?"
    bash /opt/vp/build.sh > /tmp/seed_build 2>&1; r="$r build=$?"
    bash /opt/vp/test.sh /tmp/seed_test.json > /tmp/seed_test 2>&1
    r="$r tests=$(python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; t=json.load(open('/tmp/seed_test.json'))
def names(d):
    for k in ('passed','pass','stable','tests'):
        if k in d: return set(d[k]) if isinstance(d[k],list) else set(d[k])
    return set(d)
m=set(b)-set(t["passed"])
print('ok' if not m else 'MISSING:'+','.join(sorted(m)))
P
)"
  fi
  (cd $V; VERIF_SEED=1 timeout 900 python3 check.py $prop > /tmp/seed_check 2>&1; echo "$id $prop $r check=$? $(grep -o 'VIOLATION.*' /tmp/seed_check | sed 's/replay=[^ ]*//') | $(grep -E '^    failed|undecided ' /tmp/seed_check | cut -c1-160 | head -3 | tr '\n' ';')")
  git -C /repo checkout -- .
done
