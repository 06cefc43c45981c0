#!/bin/bash
# seedtest.sh ID [notest]: confirm a planted bug in a scratch copy of /repo shown at /repo in a private mount namespace,
# then run its property's check on it.  Usage from anywhere; needs unshare -Urm.
ID=$1; NT=$2
D=/verif/seeded/$ID
W=/tmp/seed.$ID.$$
mkdir -p $W; cp -a /repo $W/repo
cat > $W/run.sh <<EOS
mount --bind $W/repo /repo || exit 9
cd /repo
bash /opt/vp/build.sh > $W/b0.log 2>&1
bash $D/demo.sh > $W/demo0.log 2>&1; echo "demo unchanged: \$?"
git apply --check $D/patch.diff && git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh > $W/b1.log 2>&1 || { echo "build fails"; tail -5 $W/b1.log; exit 1; }
bash $D/demo.sh > $W/demo1.log 2>&1; echo "demo patched: \$?"; tail -2 $W/demo1.log
if [ -z "$NT" ]; then bash /opt/vp/test.sh $W/out.json > $W/t.log 2>&1; python3 /verif/tools/cmpbase.py $W/out.json; fi
EOS
unshare -Urm bash $W/run.sh
rm -rf $W
