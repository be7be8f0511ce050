#!/bin/bash
# seed_eval.sh <seeded-id> [noclean]: validate one planted bug against /repo (applied, then undone)
# and report whether the property's quick check catches it.
ID="$1"; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
T=$(mktemp -d)
cp -r "$D" "$T/d"; rm -f "$T/d/patch.diff" "$T/d/meta.json"
if [ "$2" != nodemo0 ]; then
  (cd /repo && timeout 300 bash "$T/d/demo.sh") >"$T/demo0" 2>&1; r0=$?
else r0=skip; fi
git apply --check "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
git apply "$D/patch.diff"
trap 'git -C /repo checkout -q -- .; rm -rf "$T"' EXIT
bash /opt/vp/build.sh >"$T/b" 2>&1; rb=$?
bash /opt/vp/test.sh "$T/t.json" >"$T/tl" 2>&1
tests=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('$T/t.json'))['passed']);print('ok' if b<=o else 'FAIL '+str(sorted(b-o)[:5]))")
(cd /repo && timeout 300 bash "$T/d/demo.sh") >"$T/demo1" 2>&1; r1=$?
VERIF_SEED=1 VERIF_TIER=quick /verif/check.sh $P quick >"$T/c" 2>&1; rc=$?
v=$(grep -c "^VIOLATION property=$P " "$T/c")
ok=BAD; [ "$r0" != skip ] && [ "$r0" != 0 ] || { [ $rb = 0 ] && [ "$tests" = ok ] && [ $r1 != 0 ] && ok=valid; }
c=MISSED; [ $rc = 1 ] && [ $v -ge 1 ] && c=CAUGHT
echo "$ID [$P] $ok $c demo0=$r0 build=$rb tests=$tests demo1=$r1 check=$rc viol=$v"
if [ $ok = BAD ] || [ $c = MISSED ]; then tail -n 5 "$T/demo0" "$T/demo1" "$T/c"; fi
