#!/bin/bash
# tryseed.sh ID [check]: with the patch: build, tests, demo, check; always undone
S=/verif/seeded/$1; cd /repo || exit 1
bash /opt/vp/build.sh >/tmp/sb.log 2>&1; bash $S/demo.sh >/tmp/sd.log 2>&1; echo "$1 demo clean: $?"; head -3 /tmp/sd.log
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/ts.json 2>/dev/null | tail -1
bash $S/demo.sh >/tmp/sd.log 2>&1; echo "demo patched: $?"; head -3 /tmp/sd.log
P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /verif; for p in $P; do python3 run.py $p > /tmp/sc.log 2>&1; echo "$p exit $?: $(grep -c VIOLATION /tmp/sc.log) violations; $(tail -1 /tmp/sc.log)"; grep -v KNOWN /tmp/sc.log | head -3; done
git -C /repo checkout -- .; bash /opt/vp/build.sh >/tmp/sb.log 2>&1
