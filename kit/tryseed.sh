#!/bin/bash
# tryseed.sh ID [--checks]: in a private mount namespace with a copy of /repo in its place, applies the seed, builds,
# runs the tests and the demo with and without it; then runs the property's check against the patched copy.
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/seed.XXXX)
cp -a /repo $w/repo
out=$(unshare -Ur -m bash -c "
mount --bind $w/repo /repo && cd /repo || exit 9
bash $d/demo.sh >$w/demo0.log 2>&1; echo demo-unchanged \$?
git apply $d/patch.diff || { echo APPLY-FAILED; exit 9; }
bash /opt/vp/build.sh >$w/build.log 2>&1; echo build \$?
bash /opt/vp/test.sh $w/t.json >$w/test.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$w/t.json'))
def ps(x): return set(x.get('passed') or x.get('passing') or x.get('stable') or [])
print('tests missing', sorted(ps(b)-ps(t)) if ps(b) else list(b)[:3])
P
cd /repo; bash $d/demo.sh >$w/demo1.log 2>&1; echo demo-patched \$?
")
echo "$out"; tail -3 $w/demo0.log | sed 's/^/  0: /'; tail -3 $w/demo1.log | sed 's/^/  1: /'
grep -q "build 0" <<<"$out" || tail -20 $w/build.log
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; LFSA_REPO=$w/repo LFSA_NOEVIDENCE=1 timeout 900 python3 -m lfsa $prop --tier quick 2>&1 | grep -v "^ok" | cut -c1-400 | tail -${TAIL:-6}; echo "check rc ${PIPESTATUS[0]}"
rm -rf "$w"
