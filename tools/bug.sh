#!/bin/bash
# bug.sh ID...: confirms planted bugs: applies each to /repo, builds, runs the
# stable tests, its demo and the check of its property, and undoes it.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(/usr/bin/python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  bash "$d/demo.sh" >/tmp/bug_clean.log 2>&1; clean=$?
  git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/bug_build.log 2>&1; build=$?
  tests=skipped
  [ -z "$NOTEST" ] && { bash /opt/vp/test.sh /tmp/bug_out.json >/tmp/bug_test.log 2>&1
  tests=$(/usr/bin/python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/bug_out.json'))
def names(x):
    for k in ('passed','stable','tests'):
        if k in x: return x[k]
p=set(names(o)); s=set(names(b)); print(len(s-p),'broken',sorted(s-p)[:3])
PY
); }
  bash "$d/demo.sh" >/tmp/bug_demo.log 2>&1; demo=$?
  cd /verif; ./check.py $prop >/tmp/bug_check.log 2>&1; chk=$?
  viol=$(grep -c "^VIOLATION property=$prop" /tmp/bug_check.log)
  git -C /repo checkout -- .
  echo "$id [$prop]: clean demo $clean, build $build, tests: $tests, demo with bug $demo, check exit $chk violations $viol"
done
