#!/bin/bash
# plant.sh ID [PROPS] : confirm a planted bug in /repo (demo 0 clean / nonzero patched, builds, tests pass) and run its check(s)
ID=$1; D=/verif/seeded/$ID; P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is dirty"; exit 2; }
pgrep -f /opt/vcheck >/dev/null && { echo "vcheck is running"; exit 2; }
back() { git -C /repo checkout -- . ; }
trap back EXIT
T=$(mktemp -d /tmp/plant.XXXXXX); cp $D/* $T/; rm -f $T/*.diff $T/meta.json
bash /opt/vp/build.sh >/tmp/plant.b 2>&1 || { echo "clean build fails"; exit 2; }
(cd /repo; timeout 300 bash $T/demo.sh >/tmp/plant.d0 2>&1); a=$?
git -C /repo apply $D/patch.diff || { echo "does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/plant.b 2>&1 || { echo "$ID: patched build FAILS"; tail -5 /tmp/plant.b; exit 2; }
t=$(bash /opt/vp/test.sh /tmp/plant.t 2>&1 | tail -1)
(cd /repo; timeout 300 bash $T/demo.sh >/tmp/plant.d1 2>&1); b=$?
rm -rf $T
echo "$ID: demo clean $a patched $b; tests $t"
[ "$a" = 0 ] || tail -3 /tmp/plant.d0
for p in $P; do
  o=$(cd /verif; timeout 900 ./check.py $p --tier quick --seed 1 2>&1); r=$?
  echo "$ID: $p rc $r $(grep -c VIOLATION <<<"$o") $(grep -A3 ^facet <<<"$o" | head -4 | tr '\n' '|' | cut -c1-260) $([ $r = 0 ] && echo MISSED)"
done
