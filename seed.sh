#!/bin/bash
# seed.sh ID [CHECK...]: confirm a planted bug (builds, passes the tests, demo tells it apart), then run the checks against it
R=${SEED_REPO:-/repo}; B=/opt/vp/build.sh; T=/opt/vp/test.sh; [ $R = /repo ] || { B=${R}build.sh; T=${R}test.sh; }
id=$1; shift; d=/verif/seeded/$id; [ -d $d ] || d=/verif/seeded_more/$id
[ -z "$(git -C $R status --porcelain)" ] || { echo "$R is not clean"; exit 2; }
undo() { git -C $R checkout -q -- .; }
trap undo EXIT
demo() { (cd $R && timeout 300 bash $d/demo.sh >/tmp/demo.$id.out 2>&1); }
bash $B >/tmp/seed.build 2>&1 || { echo "$id: clean build fails"; exit 2; }
demo || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/demo.$id.out; exit 2; }
git -C $R apply $d/patch.diff || { echo "$id: does not apply"; exit 2; }
if [ -z "$NOTEST" ]; then
  bash $T /tmp/seed.json >/tmp/seed.test 2>&1
  r=$(tail -1 /tmp/seed.test); echo "$id: $r"
  case "$r" in "333 passed, 0 failed"*) ;; *) grep -a "^FAIL" $R/_build/tests/results.txt | head -5; echo "$id: TESTS NOTICE"; undo; bash $B >/dev/null 2>&1; exit 2;; esac
else bash $B >/tmp/seed.build 2>&1; fi
demo && { echo "$id: DEMO DOES NOT NOTICE"; undo;  bash $B >/dev/null 2>&1; exit 2; }
tail -1 /tmp/demo.$id.out
for c in ${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
  MC_REPO=$R python3 /verif/lib/check.py $c quick >/tmp/seed.$id.$c 2>&1; echo "$id: $c -> $? $(grep -c VIOLATION /tmp/seed.$id.$c) $(grep -m1 VIOLATION /tmp/seed.$id.$c | cut -c1-150)"
done
undo; bash $B >/dev/null 2>&1
