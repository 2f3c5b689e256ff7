#!/bin/bash
# seedtest.sh ID...  confirm each planted bug (tests pass, demo 0 -> nonzero) and say whether its property's check catches it
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
  (cd /repo && bash $D/demo.sh >/tmp/w/demo0.log 2>&1); d0=$?
  git -C /repo apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  t=$(bash /tmp/w/t.sh 2>&1 | tail -1)
  (cd /repo && bash $D/demo.sh >/tmp/w/demo1.log 2>&1); d1=$?
  if grep -q "^error" /tmp/w/demo1.log; then d1="COMPILE"; fi
  out=$(cd /verif && ./check.sh $P 2>&1); rc=$?
  git -C /repo checkout -- .
  ok=BAD; [ "$d0" = 0 ] && [ "$d1" != 0 ] && [ "$d1" != COMPILE ] && [[ "$t" == "missing []"* ]] && ok=ok
  c=MISSED; [ $rc = 1 ] && grep -q "VIOLATION property=$P" <<<"$out" && c=caught
  echo "$id [$P] seed=$ok (demo $d0/$d1, tests: $t) check=$c rc=$rc: $(grep -m1 "case" <<<"$out" | cut -c1-160)"
done
