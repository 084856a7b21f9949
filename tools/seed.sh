#!/bin/bash
# tools/seed.sh ID [-c]   try one planted bug in a private mount of a copy of /repo:  demo on base, build, tests, demo, check
ID=$1; D=/tmp/sd/$ID.$$; mkdir -p $D
cp -a /repo $D/repo; mkdir $D/ev
unshare -m bash -c '
ID=$1; D=$2; FLAG=$3
mount --make-rprivate / 2>/dev/null
mount --bind $D/repo /repo; mount --bind $D/ev /verif/evidence
S=/verif/seeded/$ID; P=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))[\"property\"])" $S/meta.json)
cd /repo; git checkout -q -- . 
r() { printf "%s: %s\n" "$ID" "$*"; }
if [ "$FLAG" != -c ]; then
bash /opt/vp/build.sh >$D/b0.log 2>&1
timeout 300 bash $S/demo.sh >$D/d0.log 2>&1; r "demo on base: $?"
fi
git apply $S/patch.diff || { r "patch does not apply"; exit 1; }
if [ "$FLAG" != -c ]; then
bash /opt/vp/test.sh $D/t.json >$D/t.log 2>&1
r "tests lost: $(python3 - $D/t.json <<X
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t=json.load(open(sys.argv[1])); print(sorted(b-set(t["passed"])))
X
)"
timeout 300 bash $S/demo.sh >$D/d1.log 2>&1; r "demo with bug: $? ($(tail -1 $D/d1.log | cut -c1-150))"
fi
cd /verif; t0=$SECONDS; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt -m ddv.run $P >$D/c.log 2>&1; r "check $P: exit $? $((SECONDS-t0))s: $(grep -v "^KNOWN" $D/c.log | tail -2 | tr "\n" "|" | cut -c1-400)"
' x $ID $D $2
rm -rf $D
