#!/bin/bash
# trybug.sh ID [PROP]: run a property's check with a planted bug applied (in a private copy of /repo and of /verif)
ID=$1; D=/verif/seeded/$ID
PROP=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
W=/tmp/try.$ID.$$; mkdir -p $W; cp -a /repo $W/repo; mkdir $W/verif; cp -a /verif/*.py /verif/sim /verif/tools /verif/known-findings.txt $W/verif/ 2>/dev/null; cp -a /verif/build $W/verif/ 2>/dev/null
cat > $W/run.sh <<EOS
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 9
cd /repo && git apply $W/patch.diff || exit 8
cd /verif && timeout 900 python3 check.py $PROP
echo "exit \$?"
for f in replays/*.plan; do [ -f "\$f" ] && [ -n "$SHOW" ] && cat "\$f"; done
EOS
cp $D/patch.diff $W/
unshare -Urm bash $W/run.sh 2>&1 | tail -${LINES_:-4} | sed "s/^/[$ID $PROP] /"
rm -rf $W
