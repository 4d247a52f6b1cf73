#!/bin/bash
# tools/seed.sh ID [check|demo]: confirm a planted bug in a scratch copy of /repo
# (mounted over /repo in a private mount namespace), and run its check there.
id=$1; mode=$2; lane=${SEED_LANE:-0}
S=/tmp/seed$lane
mkdir -p $S
head=$(git -C /repo rev-parse HEAD)
if [ ! -d $S/repo ]; then cp -a /repo $S/repo; fi
if [ "$(git -C $S/repo rev-parse HEAD)" != "$head" ]; then
    git -C $S/repo fetch -q /repo HEAD && git -C $S/repo checkout -q -f FETCH_HEAD
    git -C $S/repo reset -q --hard $head
fi
git -C $S/repo checkout -q -- .
mkdir -p $S/verif
rsync -a --delete --exclude seeded --exclude evidence --exclude replays /verif/ $S/verif/ 2>/dev/null || { rm -rf $S/verif; cp -a /verif $S/verif; rm -rf $S/verif/seeded; }
rm -rf $S/demo; mkdir $S/demo; cp -a /verif/seeded/$id/. $S/demo/
rm -f $S/demo/patch.diff $S/demo/meta.json
cp /verif/seeded/$id/patch.diff $S/patch.diff
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cat > $S/in.sh <<EOF
mount --bind $S/repo /repo || exit 9
mount --bind $S/verif /verif || exit 9
cd /repo
git apply $S/patch.diff || { echo "PATCH FAILS"; exit 1; }
if [ "$mode" != check ]; then
bash /opt/vp/build.sh > $S/build.log 2>&1 || { echo "BUILD FAILS"; tail -30 $S/build.log; exit 1; }
timeout 300 bash $S/demo/demo.sh > $S/demo.log 2>&1; echo "$id demo with patch: \$? (want != 0)"; tail -2 $S/demo.log
[ "$mode" = demo ] || flock /tmp/seed.lock bash /opt/vp/test.sh $S/t.json > $S/test.log 2>&1; [ "$mode" = demo ] || python3 /verif/tools/cmp_tests.py $S/t.json | head -6
fi
if [ "$mode" != demo ]; then
cd /verif; mkdir -p evidence
VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $prop > $S/check.log 2>&1; echo "$id check $prop: \$? (want 1)"; grep -a VIOLATION $S/check.log | head -2
fi
cd /repo; git checkout -q -- .
if [ "$mode" != check ]; then
bash /opt/vp/build.sh > $S/build.log 2>&1 || echo "BUILD FAILS"
timeout 300 bash $S/demo/demo.sh > $S/demo.log 2>&1; echo "$id demo without patch: \$? (want 0)"; tail -2 $S/demo.log
fi
EOF
unshare -Urm bash $S/in.sh
