#!/bin/bash
# apply a planted bug to /repo, rebuild, run the stable tests, the demo and the named checks, and undo it
ID=$1; shift
D=/verif/seeded/$ID
cd /repo && git apply "$D/patch.diff" || exit 9
bash /opt/vp/build.sh >/tmp/tb.$ID.log 2>&1; echo "build $?"
bash /opt/vp/test.sh /tmp/tb.$ID.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/tb.$ID.json'));print('tests',d if len(str(d))<400 else str(d)[:400])"
bash "$D/demo.sh" >/dev/null 2>&1; echo "demo $?"
cd /verif; for p in "$@"; do timeout 900 python3-vt check.py $p > /tmp/tb.$ID.$p.log 2>&1; echo "check $p rc=$?"; grep VIOLATION /tmp/tb.$ID.$p.log | head -3; done
git -C /repo checkout -- .
