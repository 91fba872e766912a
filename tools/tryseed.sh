#!/bin/bash
# tryseed.sh <id> [property...]: applies a seeded change to /repo, builds, runs the tests, the demo and the property's check, then undoes it.
# "notest" as second argument skips build/tests/demo.
id=$1; shift; S=/verif/seeded/$id; cd /repo || exit 9
[ -z "$(git status --porcelain -uno)" ] || { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
run() { # $1 = expectation name
  bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { echo "$1: BUILD FAILS"; tail -5 /tmp/b.log; return; }
}
if [ "$1" != notest ]; then
  D=$(mktemp -d /tmp/demo.XXXX); cp -a $S/. $D/; rm -f $D/*.diff $D/meta.json
  run base; timeout 300 bash $D/demo.sh > /tmp/d0.log 2>&1; echo "demo on base: rc=$? (want 0)"
  git apply $S/patch.diff || exit 9
  run patched; bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1; python3 - <<'X'
import json
j=json.load(open('/tmp/seed.json')); print("tests: passed",len(j['passed']),"failed",j['failed'])
X
  timeout 300 bash $D/demo.sh > /tmp/d1.log 2>&1; echo "demo on patched: rc=$? (want nonzero)"; tail -2 /tmp/d1.log
  rm -rf "$D"
else shift; git apply $S/patch.diff || exit 9; fi
for p in ${@:-$P}; do (cd /verif; [ -f checks/$p.py ] && timeout 900 python3 check.py $p quick | cut -c1-400 | tail -4; echo "$p rc=${PIPESTATUS[0]}"); done
