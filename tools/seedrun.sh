#!/bin/bash
# seedrun.sh <seed id> [notest] : tries a planted bug in a scratch copy of /repo
# bound over /repo in a private mount namespace.  Prints one summary line.
id=$1; mode=$2
sd=/verif/seeded/$id
sc=/tmp/sc-$id
rm -rf "/tmp/sc-$id" && cp -a /repo "$sc" || exit 2
demo=/tmp/demo-$id; rm -rf "/tmp/demo-$id"; mkdir "$demo"; cp -r "$sd"/. "$demo"; rm -f "$demo"/*.diff "$demo"/meta.json
prop=$(python3 -c "import json;print(json.load(open('$sd/meta.json'))['property'])")
if [ "$mode" != check ]; then
  base=$(unshare -Urm bash -c "cd /repo && timeout 300 bash $demo/demo.sh >/tmp/demo-$id.base 2>&1; echo \$?")
fi
git -C "$sc" apply "$sd/patch.diff" || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
unshare -Urm bash -c "
mount --bind $sc /repo
cd /repo
if [ '$mode' != check ]; then timeout 300 bash $demo/demo.sh >/tmp/demo-$id.bug 2>&1; echo \$? > /tmp/demo-$id.rc; fi
if [ -z '$mode' ]; then
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAIL > /tmp/demo-$id.build
mkdir -p /tmp/rep-$id; mount --bind /tmp/rep-$id /opt/vp/reports
bash /opt/vp/test.sh /tmp/t-$id.json >/dev/null 2>&1
fi
mkdir -p /tmp/ev-$id; mount --bind /tmp/ev-$id /verif/evidence
cd /verif && ./run.sh $prop > /tmp/chk-$id.out 2>&1; echo \$? > /tmp/chk-$id.rc
"
miss=-
[ -z "$mode" ] && miss=$(python3 -c "
import json
t=json.load(open('/tmp/t-$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(t.get('passed',[])); print([x for x in b['stable'] if x not in p][:5])")
echo "$id prop=$prop demo: base=$base bug=$(cat /tmp/demo-$id.rc 2>/dev/null) tests-missing=$miss check rc=$(cat /tmp/chk-$id.rc) $(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' /tmp/chk-$id.out) $(tail -1 /tmp/chk-$id.out)"
rm -rf "/tmp/sc-$id" "/tmp/demo-$id" "/tmp/ev-$id" "/tmp/rep-$id"
