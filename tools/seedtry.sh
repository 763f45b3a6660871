#!/bin/bash
# seedtry.sh ID [notest]: confirms a planted change in the scratch clone /tmp/sd (builds, tests pass, demo fails with it only) and runs its property's check
id=$1; S=/verif/seeded/$id; W=${SD:-/tmp/sd}
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C $W checkout -q -- . ; git -C $W apply $S/patch.diff || exit 9
trap 'git -C $W checkout -q -- .' EXIT
for x in build test; do sed "s#/repo#$W#g; s#/opt/vp/build.sh#$W.build.sh#g" /opt/vp/$x.sh > $W.$x.sh; done
bash $W.build.sh >/tmp/seed-build.log 2>&1 || { echo "$id BUILD FAILS"; tail -5 /tmp/seed-build.log; exit 9; }
(cd $W && bash $S/demo.sh >/tmp/seed-demo.log 2>&1); echo "$id demo with patch: rc=$? $(tail -1 /tmp/seed-demo.log)"
if [ "$2" != notest ]; then bash $W.test.sh /tmp/seed-out.json >/tmp/seed-test.log 2>&1; echo "$id tests: $(python3 -c "import json;d=json.load(open('/tmp/seed-out.json'));print(len(d['passed']),'passed',d['failed'])")"; fi
if [ "$2" != nocheck ]; then (cd /verif && VERIF_REPO=$W VERIF_SEED=${VERIF_SEED:-1} python3 check.py $prop --tier quick 2>&1 | grep -v "^ *$" | head -2; echo "$id check rc=${PIPESTATUS[0]}"); fi
git -C $W checkout -q -- .; trap - EXIT
bash $W.build.sh >/tmp/seed-build.log 2>&1
(cd $W && bash $S/demo.sh >/tmp/seed-demo.log 2>&1); echo "$id demo unpatched: rc=$? $(tail -1 /tmp/seed-demo.log)"
