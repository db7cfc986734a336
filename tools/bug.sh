#!/bin/bash
# Validates planted bugs: builds, tests, demo on both trees, and all checks.  bug.sh ID...
cd /repo || exit 1
[ -z "$(git status --short)" ] || { echo "/repo is not clean"; exit 1; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
one() {
  local id=$1 d=/verif/seeded/$1 p; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply "$d/patch.diff" || { echo "$id: does not apply"; return; }
  bash /opt/vp/build.sh >/tmp/bug.log 2>&1 || { echo "$id: does not build"; tail -20 /tmp/bug.log; undo; return; }
  bash /opt/vp/test.sh /tmp/bug.json >/tmp/bug.log 2>&1
  local miss; miss=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/bug.json'))
ok=set(r.get('passed') or [k for k,v in r.items() if v in ('pass','passed',True)])
print(' '.join(sorted(b-ok))[:300])
P
)
  [ -z "$miss" ] || echo "$id: TESTS FAIL: $miss"
  timeout 300 bash "$d/demo.sh" >/tmp/bug.demo 2>&1; local r1=$?
  local q; q=$(cd /verif && bash check.sh $p quick 2>/dev/null | grep -m1 VIOLATION | cut -c1-300)
  undo
  bash /opt/vp/build.sh >/tmp/bug.log 2>&1
  timeout 300 bash "$d/demo.sh" >/tmp/bug.demo0 2>&1; local r0=$?
  echo "$id [$p] demo clean=$r0 patched=$r1 check: ${q:-MISSED}"
  [ $r0 = 0 ] || tail -5 /tmp/bug.demo0
  [ $r1 != 0 ] || tail -5 /tmp/bug.demo
}
for i in "$@"; do one $i; done
