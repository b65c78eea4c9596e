#!/bin/bash
# seed_check.sh ID... : checks that a planted bug counts and that the check of its property reports it
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 1; }
  r="$id($prop):"
  (cd /repo && bash $d/demo.sh >/tmp/seed_demo0.log 2>&1) && r="$r demo-ok" || r="$r DEMO-FAILS-CLEAN"
  git -C /repo apply $d/patch.diff || { echo "$r NOAPPLY"; continue; }
  if [ -z "$NOBUILD" ]; then
    bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 && r="$r build" || r="$r BUILD-FAILS"
    bash /opt/vp/test.sh /tmp/seed_t.json >/dev/null 2>&1
    r="$r $(python3 - <<'P'
import json
s=json.load(open('/opt/vp/BASELINE.json'))['stable']
t=json.load(open('/tmp/seed_t.json'))
def names(x): return set(x) if isinstance(x,list) else set(k for k,v in x.items() if v in ('pass','PASS',True))
p=t.get('passed',t.get('pass'))
p=names(p)
m=[x for x in (s if isinstance(s,list) else list(s)) if x not in p]
print('tests-ok' if not m else 'TESTS-BROKEN %s'%m[:3])
P
)"
  fi
  (cd /repo && bash $d/demo.sh >/tmp/seed_demo1.log 2>&1) && r="$r DEMO-MISSES" || r="$r demo-fails"
  t0=$(date +%s)
  (cd /verif && ./check.sh $prop quick >/tmp/seed_chk.log 2>&1); rc=$?
  r="$r check-rc=$rc $(grep -c '^VIOLATION property='$prop /tmp/seed_chk.log) $(( $(date +%s)-t0 ))s $(grep '^VIOLATION' /tmp/seed_chk.log | head -1)"
  git -C /repo checkout -- .
  echo "$r" | tee -a /tmp/seed_results.txt
done
