#!/bin/bash
# tools/seedtest.sh ID [notests]: confirm a planted bug (demo passes unchanged, fails with the patch, repo tests pass) and run its check; always undoes the patch
d=/verif/seeded/$1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/demo0.log 2>&1; a=$?
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1 || { echo "$1 DOES NOT BUILD"; tail -20 /tmp/seedbuild.log; exit 2; }
bash $d/demo.sh >/tmp/demo1.log 2>&1; b=$?
t=skipped
[ "$2" = notests ] || { bash /opt/vp/test.sh /tmp/seedtests.json >/tmp/seedtests.log 2>&1; t=$(python3 -c "
import json
o=json.load(open('/tmp/seedtests.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print('ok' if set(b)<=set(o['passed']) else 'FAIL %s'%(set(b)-set(o['passed'])))"); }
cd /verif
c=$(VERIF_SEED=1 VERIF_TIER=quick python3 run.py $p 2>&1 | tail -14); 
echo "$c" | grep -q "^VIOLATION property=$p" && r=CAUGHT || r=MISSED
echo "$1 property=$p demo(unchanged)=$a demo(patched)=$b tests=$t check=$r"
[ $r = CAUGHT ] || echo "$c"
[ $a = 0 ] || cat /tmp/demo0.log | tail -5
[ $b = 0 ] && cat /tmp/demo1.log | tail -5
echo "$c" | grep -v "^OK\|^VIOL" | head -4 | cut -c1-200
