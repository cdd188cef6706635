#!/bin/bash
# plant.sh ID [--check C05,...]: makes seeded/ID complete (kit, demo.sh) from its
# edit (patch.diff, or tools/plants/ID.py run in a scratch copy of /repo), t.rs and
# meta.json, and confirms it there: builds, stable tests pass, demo fails with
# the change and passes without.  With --check, runs the checks against it too.
set -u
id=$1; dir=/verif/seeded/$id; kit=/verif/tools/plant
W=/tmp/plant; mkdir -p $W
trap 'git -C /repo checkout -q -- . ' EXIT
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
[ -e $dir/t.rs ] && for f in crc ext4 md rng sparse; do sed 's/crate::/crate::demo::/g' /verif/harness/core/src/$f.rs > $dir/$f.rs; done
[ -e $dir/demo.sh ] || cp $kit/demo.sh $dir/demo.sh
[ -e $dir/t.rs ] && for f in mod kit; do cp $kit/$f.rs $dir/$f.rs; done
chmod +x $dir/demo.sh
edit=/verif/tools/plants/$id.py
if [ -e $edit ]; then
  rm -rf $W/src; mkdir -p $W/src; git -C /repo archive HEAD | tar x -C $W/src
  (cd $W/src && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x && python3 $edit && git diff > $dir/patch.diff) || { echo EDIT FAILED; exit 2; }
  rm -rf $W/src
fi
[ -s $dir/patch.diff ] || { echo "no patch"; exit 2; }
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
bash $dir/demo.sh > $W/demo0.log 2>&1; a=$?
git apply $dir/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "BUILD FAILS"; tail -30 $W/build.log; exit 1; }
bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
t=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
need=set(b['stable'])
got=set(o.get('passed') or [])
print(len(need-got), sorted(need-got)[:5])
PY
)
bash $dir/demo.sh > $W/demo1.log 2>&1; b=$?
echo "$id: demo without=$a with=$b; stable tests lost: $t"
[ $a = 0 ] || grep -A8 "^error\|panicked" $W/demo0.log | head -30
[ $b != 0 ] || tail -5 $W/demo1.log
grep -h "panicked\|could not compile\|^error" $W/demo1.log | head -4
if [ "${2:-}" = --check ]; then
  for c in ${3//,/ }; do
    timeout 900 env VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh $c > $W/check.log 2>&1; r=$?
    echo "  $c: exit $r $(grep -m1 VIOLATION $W/check.log)"; grep -m1 -A3 "VIOLATION" $W/check.log | tail -3 | cut -c1-300
  done
fi
git -C /repo checkout -q -- .
