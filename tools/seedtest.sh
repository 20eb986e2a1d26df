#!/bin/bash
# seedtest.sh ID [-n]: confirms a planted bug (applies, builds, tests pass, demo discriminates) and,
# unless -n, whether the check of its property catches it. The tree is restored afterwards.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 3
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 3; }
tmp=$(mktemp -d); cp -r $d $tmp/s
rm -f $tmp/s/patch.diff $tmp/s/meta.json
bash $tmp/s/demo.sh > $tmp/o1 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/test.sh $tmp/o.json > $tmp/o2 2>&1
np=$(python3 -c "import json;print(len(json.load(open('$tmp/o.json'))['passed']))")
bash $tmp/s/demo.sh > $tmp/o3 2>&1; r1=$?
echo "$id ($prop): demo clean=$r0 patched=$r1 tests=$np"
[ $r0 = 0 ] || tail -5 $tmp/o1
[ $r1 != 0 ] || tail -5 $tmp/o3
if [ "$2" != -n ]; then
  (cd /verif; timeout 900 ./run $prop quick > $tmp/o4 2>&1); rc=$?
  echo "   check rc=$rc: $(grep -m1 VIOLATION $tmp/o4 | cut -c1-220)"
fi
rm -r "$tmp"
