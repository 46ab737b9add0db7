#!/bin/bash
# seedtest.sh <id> [--notest] : builds+tests /repo with the seeded patch, runs its demo and its property's check, then undoes it.
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; p=$V/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")
T=$(mktemp -d)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
cp -a "$p" "$T/d"
git -C /repo apply "$p/patch.diff" || exit 1
if [ "$2" != "--notest" ]; then
  bash /opt/vp/test.sh $T/o.json >$T/log 2>&1
  python3 - $T/o.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))
m=[x for x in b if x not in set(o['passed'])]
print("tests: passed %d, stable missing %d %s"%(len(o['passed']),len(m),m[:5]))
PY
  (cd /repo && bash $T/d/demo.sh >$T/demo.out 2>&1); echo "demo with patch: rc=$? (want nonzero)  $(tail -1 $T/demo.out)"
fi
(cd $V && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $prop quick > $T/chk 2>&1); echo "check $prop: rc=$? (want 1)"; grep -A3 "case " $T/chk | head -8 | cut -c1-300
git -C /repo checkout -- .
if [ "$2" != "--notest" ]; then
  bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo && bash $T/d/demo.sh >$T/demo.out 2>&1); echo "demo clean: rc=$? (want 0) $(tail -1 $T/demo.out)"
fi
rm -rf "$T"
